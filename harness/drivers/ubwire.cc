// What unbalanced PSI puts on the wire: terms of every message, orders, and what a party without result is shown.
#include "wirelib.h"
#include "ub.h"
#include "psi/algorithm/ecdh/ub_psi/ecdh_oprf_selector.h"
using psi::ecdh::CreateEcdhOprfClient;
using psi::ecdh::CreateEcdhOprfServer;
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 10 : 1;
  g_before = [] { g_draw.clear(); };
  g_after = [](json& j) { json d = json::array(); for (auto& x : g_draw) d.push_back(Hex(x)); j["draw"] = d; };
  auto table = [&](Rng& g, World& w, const Gen& G, int p, const std::vector<int>& ids) {
    w.sd[p] = MakeSide(g, G, ids, p ? "c" : "s", false, 1, false);
    WriteCsv(w.in(p), w.sd[p].t);
  };
  auto ok = [&](Case& c, const verif::NetResult& nr) {
    for (auto& r : nr.res) if (r["st"] != "ok") { c.add({{"e", "Failed"}, {"err", r.value("err", "")}}); return false; }
    return true;
  };
  auto who = [](int m) { On o; o.sg = m != 1; o.cg = m != 2; return o; };
  if (a.mode == "terms") {
    for (int i = 0; i < 260 * mult; ++i)
      run.run("terms-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 6151u + i * 7873u);
        World w(a.tmp);
        w.curve = std::vector<int>{4, 4, 2, 3}[g() % 4];
        for (auto& b : w.batch) b = std::vector<long>{0, 1, 2, 3, 64}[g() % 5];
        for (auto& k : w.kb) k = PickKb(g);
        w.keyfile = true;
        std::string sk;
        for (int k = 0; k < 32; ++k) sk += (char)(k < 31 ? g() % 255 + 1 : 1);
        { std::ofstream f(w.S / "key.bin", std::ios::binary); f << sk; }
        bool wide = i % 3 == 0;   // enough keys to tell a shuffled order from an unshuffled one
        int uni = wide ? R(g, 24, 30) : R(g, 2, 12);
        std::vector<int> order;
        for (int k = 0; k < uni; ++k) order.push_back(k);
        std::shuffle(order.begin(), order.end(), g);
        Gen G = OneLength(g, uni, order, 'a');
        std::vector<int> ids[2];
        std::set<int> key[2];
        for (int p = 0; p < 2; ++p) {
          ids[p] = PickIds(g, uni, wide ? R(g, 20, uni) : R(g, 1, 10), wide || g() % 2);
          table(g, w, G, p, ids[p]);
          key[p].insert(ids[p].begin(), ids[p].end());
        }
        int m = i % 3;
        On o = who((i / 3) % 3);
        (void)m;
        c.in = {{"curve", w.curve}, {"s", key[0]}, {"c", key[1]}, {"sg", o.sg}, {"cg", o.cg}, {"wide", wide}};
        Fault rec; rec.record = true;
        auto srv = CreateEcdhOprfServer(sk, psi::ecdh::OprfType::Basic, (psi::CurveType)w.curve);
        struct T { char kind; int x; };
        auto scan = [&](const verif::NetResult& nr, bool online) {
          std::unordered_map<std::string, T> term;
          auto tail = [](const std::string& t) { return t.substr(t.size() - 12); };
          for (int x = 0; x < uni; ++x) {
            const std::string& k = G.keys[x][0];
            term[k.substr(0, 12)] = {'h', x + 1};
            term[absl::Base64Escape(k).substr(0, 12)] = {'h', x + 1};
            term[srv->SimpleEvaluate(k).substr(0, 12)] = {'f', x + 1};
          }
          if (online) {
            for (auto& hex : nr.res[1]["v"]["draw"].get<std::vector<std::string>>()) {
              std::unique_ptr<psi::ecdh::IEcdhOprfClient> cl;
              try { cl = CreateEcdhOprfClient(absl::HexStringToBytes(hex), psi::ecdh::OprfType::Basic, (psi::CurveType)w.curve); } catch (...) { continue; }
              for (int x = 0; x < uni; ++x) {
                auto b = cl->Blind(G.keys[x][0]);
                term.emplace(tail(b), T{'m', x + 1});
                term.emplace(tail(srv->Evaluate(b)), T{'d', x + 1});
              }
            }
          }
          for (auto& msg : nr.log) {
            std::map<char, std::vector<int>> xs;
            for (size_t at = 0; at + 12 <= msg.bytes.size(); ++at) {
              auto it = term.find(msg.bytes.substr(at, 12));
              if (it != term.end()) xs[it->second.kind].push_back(it->second.x);
            }
            for (auto& [k, v] : xs) c.add({{"e", k == 'f' ? "Cache" : k == 'm' ? "Blind" : k == 'd' ? "Answer" : "Clear"}, {"p", msg.src ? "c" : "s"}, {"xs", v}});
          }
        };
        auto n0 = Act(w, UC::MODE_OFFLINE_GEN_CACHE, o, {}, false);
        if (!ok(c, n0)) return;
        auto n1 = Act(w, UC::MODE_OFFLINE_TRANSFER_CACHE, o, rec);
        if (!ok(c, n1)) return;
        scan(n1, false);
        c.add({{"e", "Offline"}});
        Win left[2];
        for (int k = 0; k < 4; ++k) {
          auto n2 = Act(w, UC::MODE_ONLINE, o, rec);
          if (!ok(c, n2)) return;
          if (k < 2) { scan(n2, true); c.add({{"e", "Online"}}); }
          for (int p = 0; p < 2; ++p) {
            Win x = Windows(n2, p, {});
            if (!k) left[p] = x;
            else { Win y; for (auto z : left[p]) if (x.count(z)) y.insert(z); left[p] = y; }
          }
        }
        // what is the same whatever the keys are called is the protocol's own
        World v(a.tmp);
        v.curve = w.curve; v.keyfile = true;
        for (int p = 0; p < 2; ++p) v.batch[p] = w.batch[p], v.kb[p] = w.kb[p];
        { std::ofstream f(v.S / "key.bin", std::ios::binary); f << sk; }
        Gen H = OneLength(g, uni, order, 'b');
        for (int p = 0; p < 2; ++p) table(g, v, H, p, ids[p]);
        if (!ok(c, Act(v, UC::MODE_OFFLINE_GEN_CACHE, o, {}, false)) || !ok(c, Act(v, UC::MODE_OFFLINE_TRANSFER_CACHE, o))) return;
        auto n3 = Act(v, UC::MODE_ONLINE, o, rec);
        if (!ok(c, n3)) return;
        for (int p = 0; p < 2; ++p) for (auto z : Windows(n3, p, {})) left[p].erase(z);
        for (int p = 0; p < 2; ++p) c.add({{"e", "Stable"}, {"p", p ? "c" : "s"}, {"n", left[p].size()}});
      });
  } else if (a.mode == "view") {
    for (int i = 0; i < 160 * mult; ++i)
      run.run("view-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 12289u + i * 7873u);
        int blind = i % 2;        // the party that gets nothing
        On o = who(blind ? 2 : 1);
        o.join = g() % 2 ? 1 : R(g, 2, 5); o.left = R(g, 1, 2);
        int curve = std::vector<int>{4, 4, 2, 3}[g() % 4];
        long b0 = std::vector<long>{0, 1, 2, 3}[g() % 4], b1 = std::vector<long>{0, 1, 2, 3}[g() % 4];
        long kb[2] = {PickKb(g), PickKb(g)};
        int uni = 14;
        std::vector<int> order;
        for (int k = 0; k < uni; ++k) order.push_back(k);
        std::shuffle(order.begin(), order.end(), g);
        Gen G = OneLength(g, uni, order, 'a');
        int other = 1 - blind;
        std::vector<int> mine = PickIds(g, uni, R(g, 3, 7), g() % 2);
        std::set<int> mk(mine.begin(), mine.end());
        // two inputs of the other party: as many distinct keys; the client without result knows how many match, so this stays
        std::vector<int> in, out2;
        for (int k = 1; k <= uni; ++k) (mk.count(k) ? in : out2).push_back(k);
        std::vector<int> v[2];
        int hit = R(g, 1, std::max<int>(1, in.size() - 1)), miss = R(g, 0, 3);
        for (int q = 0; q < 2; ++q) {
          std::shuffle(in.begin(), in.end(), g); std::shuffle(out2.begin(), out2.end(), g);
          int h = blind == 1 ? hit : R(g, std::max<int>(0, hit + miss - (int)out2.size()), std::min<int>(in.size(), hit + miss));
          int ms = hit + miss - h;
          v[q].assign(in.begin(), in.begin() + h);
          v[q].insert(v[q].end(), out2.begin(), out2.begin() + ms);
          std::shuffle(v[q].begin(), v[q].end(), g);
          if (blind == 0) for (int x = R(g, 0, 3); x > 0; --x) v[q].push_back(v[q][g() % v[q].size()]);
        }
        c.in = {{"s", json::array()}, {"c", json::array()}, {"sg", o.sg}, {"cg", o.cg}, {"wide", false}, {"a", v[0]}, {"b", v[1]}, {"mine", mine}, {"curve", curve}};
        using Seen = std::map<std::string, std::vector<std::string>>;
        std::vector<Seen> seen[2];
        json size[2];
        Fault rec; rec.record = true;
        auto more = [&](size_t N) {
          for (int q = 0; q < 2; ++q)
            while (seen[q].size() < N) {
              World w(a.tmp);
              w.curve = curve; w.batch[0] = b0; w.batch[1] = b1; w.kb[0] = kb[0]; w.kb[1] = kb[1];
              table(g, w, G, blind, mine);
              table(g, w, G, other, v[q]);
              auto n1 = Act(w, UC::MODE_OFFLINE, o, rec);
              if (!ok(c, n1)) return false;
              auto n2 = Act(w, UC::MODE_ONLINE, o, rec);
              if (!ok(c, n2)) return false;
              if (seen[q].empty()) c.add({{"e", "NoResult"}, {"p", blind ? "c" : "s"}, {"out", fs::exists(w.out(blind))}, {"inter", n2.res[blind]["v"]["inter"]}, {"ikey", n2.res[blind]["v"]["ikey"]}});
              Seen x;
              for (auto& m : n1.log) if ((int)m.dst == blind) x["off/" + m.ctx].push_back(m.bytes);
              for (auto& m : n2.log) if ((int)m.dst == blind) x["on/" + m.ctx].push_back(m.bytes);
              seen[q].push_back(x);
            }
          return true;
        };
        if (!more(4)) return;
        for (int q = 0; q < 2; ++q) {
          size[q] = json::array();
          for (auto& [ctx, l] : seen[q][0]) { json x = {ctx}; for (auto& b : l) x.push_back(std::to_string(b.size())); size[q].push_back(x); }
        }
        auto count = [&] {
          int diff = 0;
          for (auto& [ctx, l] : seen[0][0])
            for (size_t n = 0; n < l.size(); ++n)
              for (size_t b = 0; b < l[n].size(); ++b) {
                bool fix = true;
                for (int q = 0; q < 2 && fix; ++q)
                  for (auto& k : seen[q]) {
                    auto& y = k[ctx];
                    if (n >= y.size() || b >= y[n].size() || y[n][b] != seen[q][0][ctx][n][b]) { fix = false; break; }
                  }
                if (fix && seen[1][0][ctx][n][b] != l[n][b]) ++diff;
              }
          return diff;
        };
        int diff = 0;
        if (size[0] == size[1] && (diff = count())) { if (!more(24)) return; diff = count(); }
        c.add({{"e", "View"}, {"p", blind ? "c" : "s"}, {"a", size[0]}, {"b", size[1]}, {"diff", diff}});
      });
  }
  run.finish();
}
