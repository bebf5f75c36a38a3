// What two-party runs put on the wire: terms per message, what repeats between sessions, what a party without result sees.
#include "wirelib.h"
#include "psi/cryptor/cryptor_selector.h"
struct Run1 {
  verif::NetResult nr;
  bool out[2];
};
// one run of both parties; position 0 is the sender
static Run1 Go(const Opt& o, const Side sd[2], const std::string& tmp) {
  Scratch S(tmp);
  std::vector<std::string> in = {S / "s.csv", S / "r.csv"}, out = {S / "s.out.csv", S / "r.out.csv"};
  std::vector<verif::Party> ps;
  for (int p = 0; p < 2; ++p) {
    WriteCsv(in[p], sd[p].t);
    auto conf = Conf(o, p, sd[p], in[p], out[p]);
    verif::Party P;
    long kb = o.kb[p];
    P.fn = [conf, kb](std::shared_ptr<yacl::link::Context> l) {
      KeyBatch(kb);
      g_draw.clear();
      json j = ReportJson(MakeParty(conf, l)->Run());
      json d = json::array();
      for (auto& x : g_draw) d.push_back(Hex(x));
      j["draw"] = d;
      return j;
    };
    ps.push_back(P);
  }
  verif::NetOpt no;
  no.timeout_ms = 30000;
  Run1 r;
  r.nr = verif::RunNet(ps, no);
  for (int p = 0; p < 2; ++p) r.out[p] = fs::exists(out[p]);
  return r;
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 10 : 1;
  struct Setup { Opt o; Gen G; std::vector<int> ids[2], order; Side sd[2]; std::set<int> key[2], common; int uni; };
  auto setup = [&](Rng& g, const std::string& proto, bool unique) {
    Setup s;
    s.o.proto = proto;
    s.o.curve = R(g, 1, 5);
    s.o.batch = std::vector<long>{0, 1, 2, 3, 64}[g() % 5];
    for (auto& k : s.o.kb) k = PickKb(g);
    s.o.bucket = 1000; s.o.low = g() % 3 == 0;
    s.o.bc = g() % 2; s.o.align = g() % 2; s.o.join = g() % 2 ? 1 : R(g, 2, 5); s.o.left = R(g, 1, 2);
    s.uni = R(g, 2, 12);
    for (int i = 0; i < s.uni; ++i) s.order.push_back(i);
    std::shuffle(s.order.begin(), s.order.end(), g);
    s.G = OneLength(g, s.uni, s.order, 'a');
    for (int p = 0; p < 2; ++p) {
      bool u = unique || g() % 2;
      s.ids[p] = PickIds(g, s.uni, R(g, 1, 10), u);
      s.o.uniq[p] = u && g() % 3 == 0;
      s.sd[p] = MakeSide(g, s.G, s.ids[p], p ? "r" : "s", g() % 2, 1, false);
      s.key[p].insert(s.ids[p].begin(), s.ids[p].end());
    }
    for (int k : s.key[0]) if (s.key[1].count(k)) s.common.insert(k);
    return s;
  };
  auto describe = [&](Case& c, const Setup& s) {
    c.in = {{"proto", s.o.proto}, {"curve", s.o.curve}, {"batch", s.o.batch}, {"bc", s.o.bc}, {"low", s.o.low}, {"s", s.key[0]}, {"r", s.key[1]}};
  };
  auto failed = [&](Case& c, const Run1& r) {
    for (int p = 0; p < 2; ++p) if (r.nr.res[p]["st"] != "ok") { c.add({{"e", "Failed"}, {"p", p}, {"err", r.nr.res[p].value("err", "")}}); return true; }
    return false;
  };
  // with the keys renamed (order kept), what still shows up in every run of the original is a fixed function of the keys
  auto stable = [&](Case& c, Rng& g, const Setup& s) {
    Gen H = OneLength(g, s.uni, s.order, 'b');
    Side re[2];
    for (int p = 0; p < 2; ++p) {
      re[p] = s.sd[p];
      for (size_t col = 0; col < re[p].t.cols.size(); ++col)
        for (size_t i = 0; i < re[p].t.rows.size(); ++i)
          re[p].t.rows[i][col] = re[p].t.cols[col] == re[p].keys[0] ? H.keys[s.ids[p][i] - 1][0] : "Z" + RandWord(g, 2) + std::to_string(i);
    }
    auto skip = s.o.bc ? Spell(s.G, s.common) : std::vector<std::string>{};
    auto skip2 = s.o.bc ? Spell(H, s.common) : std::vector<std::string>{};
    auto other = Go(s.o, re, a.tmp);
    if (failed(c, other)) return;
    Win left[2];
    for (int k = 0; k < 4; ++k) {
      auto r = Go(s.o, s.sd, a.tmp);
      if (failed(c, r)) return;
      for (int p = 0; p < 2; ++p) {
        Win w = Windows(r.nr, p, skip);
        if (!k) { left[p] = w; for (auto x : Windows(other.nr, p, skip2)) left[p].erase(x); }
        else { Win n; for (auto x : left[p]) if (w.count(x)) n.insert(x); left[p] = n; }
      }
    }
    for (int p = 0; p < 2; ++p) c.add({{"e", "Stable"}, {"p", p ? "r" : "s"}, {"n", left[p].size()}});
  };
  if (a.mode == "terms") {
    for (int i = 0; i < 220 * mult; ++i)
      run.run("terms-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 911u + i * 7873u);
        Setup s = setup(g, "ecdh", false);
        describe(c, s);
        auto r = Go(s.o, s.sd, a.tmp);
        if (failed(c, r)) return;
        // terms under every pair of candidate private keys
        struct T { char kind; int x, by; };
        std::unordered_map<std::string, T> term;
        std::vector<std::string> items;
        for (auto& k : s.G.keys) items.push_back(k[0]);
        auto tail = [](const std::string& t) { return t.substr(t.size() - 12); };
        auto cr = psi::CreateEccCryptor((psi::CurveType)s.o.curve);
        auto hp = cr->HashInputs(items);
        auto hs = cr->SerializeEcPoints(hp);
        for (int x = 0; x < s.uni; ++x) {
          term[tail(hs[x])] = {'h', x + 1, 0};
          term[items[x].substr(0, 12)] = {'h', x + 1, 0};
          term[absl::Base64Escape(items[x]).substr(0, 12)] = {'h', x + 1, 0};
        }
        auto set = [&](const std::string& hex) { std::string b = absl::HexStringToBytes(hex); cr->SetPrivateKey(absl::Span<const uint8_t>((const uint8_t*)b.data(), b.size())); };
        auto d0 = r.nr.res[0]["v"]["draw"].get<std::vector<std::string>>(), d1 = r.nr.res[1]["v"]["draw"].get<std::vector<std::string>>();
        for (int p = 0; p < 2; ++p)
          for (auto& k : p ? d1 : d0) {
            set(k);
            auto m = cr->EccMask(hp);
            auto ms = cr->SerializeEcPoints(m);
            for (int x = 0; x < s.uni; ++x) term.emplace(tail(ms[x]), T{'m', x + 1, p});
            if (!p)
              for (auto& k1 : d1) {
                set(k1);
                auto ds = cr->SerializeEcPoints(cr->EccMask(cr->DeserializeEcPoints(ms)));
                for (int x = 0; x < s.uni; ++x) term.emplace(tail(ds[x]), T{'d', x + 1, 2});
              }
          }
        for (auto& m : r.nr.log) {
          int p = m.src;
          std::vector<int> ms, ds;
          int bad = 0;
          for (size_t at = 0; at + 12 <= m.bytes.size(); ++at) {
            auto it = term.find(m.bytes.substr(at, 12));
            if (it == term.end()) continue;
            auto& t = it->second;
            if (t.kind == 'm' && t.by == p && s.key[p].count(t.x)) ms.push_back(t.x);
            else if (t.kind == 'd' && s.key[1 - p].count(t.x)) ds.push_back(t.x);
            else ++bad;
          }
          std::string P = p ? "r" : "s";
          if (!ms.empty() || bad) c.add({{"e", ms.empty() ? "Plain" : "Masked"}, {"p", P}, {"xs", ms}, {"bad", bad}});
          if (!ds.empty()) c.add({{"e", "Dual"}, {"p", P}, {"xs", ds}, {"bad", 0}});
        }
        c.add({{"e", "Over"}});
        stable(c, g, s);
      });
  } else if (a.mode == "oprf") {
    for (int i = 0; i < 300 * mult; ++i)
      run.run("oprf-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 509u + i * 7873u);
        Setup s = setup(g, i % 2 ? "kkrt" : "rr22", false);
        describe(c, s);
        stable(c, g, s);
      });
  } else if (a.mode == "disclose") {
    // the sender gets nothing: its view must not tell two inputs of the receiver apart that differ in what they share with it
    for (int i = 0; i < 200 * mult; ++i)
      run.run("disclose-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 1201u + i * 7873u);
        Setup s = setup(g, std::vector<std::string>{"ecdh", "kkrt", "rr22"}[i % 3], false);
        s.o.bc = false;
        describe(c, s);
        // the other input: as many keys, other ones
        Side alt[2] = {s.sd[0], s.sd[1]};
        std::vector<int> to;
        for (int k = 1; k <= 3 * s.uni; ++k) to.push_back(k);
        std::shuffle(to.begin(), to.end(), g);
        Gen H = s.G;
        while ((int)H.keys.size() < 3 * s.uni) H.keys.push_back({"m" + RandWord(g, 13)});
        std::map<int, int> map;
        int used = 0;
        for (int k : s.key[1]) map[k] = to[used++];
        // every third time the repetitions differ, too: the same number of distinct keys, other multiplicities
        if (i / 3 % 3 == 2 && !s.o.uniq[1]) {
          int extra = R(g, 1, 4);
          for (int x = 0; x < extra; ++x) { auto r = alt[1].t.rows[g() % alt[1].t.rows.size()]; alt[1].t.rows.push_back(r); }
          std::vector<std::string> seen;
        }
        size_t kc = 0;
        for (size_t x = 0; x < alt[1].t.cols.size(); ++x) if (alt[1].t.cols[x] == alt[1].keys[0]) kc = x;
        std::map<std::string, int> idof;
        for (int k = 1; k <= s.uni; ++k) idof[s.G.keys[k - 1][0]] = k;
        for (auto& row : alt[1].t.rows) row[kc] = H.keys[map[idof[row[kc]]] - 1][0];
        // what the sender receives, per channel
        // (a byte holding a single random bit may look fixed over a few runs: the suspicion is followed up by more of them)
        using Seen = std::map<std::string, std::vector<std::string>>;
        std::vector<Seen> seen[2];
        auto more = [&](size_t N) {
          for (int v = 0; v < 2; ++v)
            while (seen[v].size() < N) {
              auto r = Go(s.o, v ? alt : s.sd, a.tmp);
              if (failed(c, r)) return false;
              if (seen[v].empty()) {
                auto& q = r.nr.res[0]["v"];
                c.add({{"e", "NoResult"}, {"p", "s"}, {"st", r.nr.res[0]["st"]}, {"out", r.out[0]}, {"inter", q["inter"]}, {"ikey", q["ikey"]}});
              }
              Seen x;
              for (auto& m : r.nr.log) if (m.dst == 0) x[m.ctx].push_back(m.bytes);
              seen[v].push_back(x);
            }
          return true;
        };
        if (!more(4)) return;
        json size[2];
        for (int v = 0; v < 2; ++v) {
          size[v] = json::array();
          for (auto& [ctx, l] : seen[v][0]) { json x = {ctx}; for (auto& b : l) x.push_back(std::to_string(b.size())); size[v].push_back(x); }
        }
        auto count = [&] {
          int diff = 0;
          for (auto& [ctx, l] : seen[0][0])
            for (size_t n = 0; n < l.size(); ++n)
              for (size_t b = 0; b < l[n].size(); ++b) {
                bool fix = true;
                for (int v = 0; v < 2 && fix; ++v)
                  for (auto& k : seen[v]) {
                    auto& q = k[ctx];
                    if (n >= q.size() || b >= q[n].size() || q[n][b] != seen[v][0][ctx][n][b]) { fix = false; break; }
                  }
                if (fix && seen[1][0][ctx][n][b] != l[n][b]) ++diff;
              }
          return diff;
        };
        int diff = 0;
        if (size[0] == size[1] && (diff = count())) {
          if (!more(24)) return;
          diff = count();
        }
        c.add({{"e", "View"}, {"p", "s"}, {"a", size[0]}, {"b", size[1]}, {"diff", diff}});
      });
  }
  run.finish();
}
