// Runs limited to a number of common keys, balanced and unbalanced.
#define VERIF_THRESHOLD
#include "ub.h"
static void Finish(Case& c, const Opt& o) {
  c.in["gs"] = o.bc; c.in["gr"] = true; c.in["both"] = o.bc;
}
// a message that is a list of places: one packed field of small numbers
static bool IsList(const std::string& b, std::vector<uint32_t>& v) {
  v.clear();
  if (b.empty()) return true;
  if (b[0] != 0x0a) return false;
  size_t at = 1, n = 0, k = 0;
  auto var = [&](size_t& x) { x = 0; k = 0; do { if (at >= b.size() || k > 4) return false; x |= (size_t)(b[at] & 127) << (7 * k++); } while (b[at++] & 128); return true; };
  if (!var(n) || n != b.size() - at) return false;
  while (at < b.size()) { size_t x; if (!var(x)) return false; v.push_back((uint32_t)x); }
  return true;
}
static json Lens(const verif::NetResult& nr) {
  json n = json::array();
  std::vector<uint32_t> v;
  for (auto& f : nr.log) if (IsList(f.bytes, v)) n.push_back(v.size());
  return n;
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  std::string mode = a.mode;
  int mult = a.thorough ? 12 : 1;
  auto shape = [&](Opt& o, Rng& g, Side sd[2], std::vector<int> ids[2], int maxrows) {
    o.proto = "ecdh";
    o.curve = R(g, 1, 5);
    o.batch = std::vector<long>{0, 1, 2, 3, 5, 8, 64}[g() % 7];
    o.bc = g() % 3 != 0; o.align = g() % 4 != 0; o.join = g() % 6; o.left = R(g, 1, 2);
    if (g() % 3 == 0) o.null_rep = "NA";
    for (auto& k : o.kb) k = PickKb(g);
    int uni = R(g, 1, 8);
    o.thr = g() % 5 == 0 ? 1000 : R(g, 1, uni);
    Gen G = MakeKeys(g, R(g, 1, 2), uni, g() % 8);
    bool same = g() % 2;
    for (int p = 0; p < 2; ++p) {
      o.uniq[p] = g() % 4 == 0;
      ids[p] = PickIds(g, uni, R(g, 1, maxrows), o.uniq[p] || g() % 3 == 0);
      sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", same, 1, !o.uniq[p] && g() % 4 == 0);
    }
  };
  if (mode == "ecdh")
    for (int i = 0; i < 600 * mult; ++i)
      run.run("ecdh-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 7919u + i * 104729u);
        Opt o; Side sd[2]; std::vector<int> ids[2];
        shape(o, g, sd, ids, 14);
        RunCase(c, a, o, g, sd, ids, g() % 2, g() % 5 == 0);
        Finish(c, o);
      });
  if (mode == "ecdh")
    for (int i = 0; i < 4; ++i)
      run.run("big-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed + i);
        Opt o;
        o.proto = "ecdh"; o.join = 1; o.thr = std::vector<long>{1000, 700, 3000, 1}[i]; o.bc = i != 1; o.batch = i == 2 ? 100 : 0;
        std::vector<int> ids[2];
        Gen G; G.nk = 1;
        for (int k = 1; k <= 7000; ++k) G.keys.push_back({"k" + std::to_string((k * 7919ll) % 1000003) + "x" + std::to_string(k)});
        for (int k = 1; k <= 5000; ++k) ids[0].push_back(k);
        for (int k = 2000; k <= 7000; ++k) ids[1].push_back(k);
        Side sd[2];
        for (int p = 0; p < 2; ++p) {
          std::shuffle(ids[p].begin(), ids[p].end(), g);
          sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 0, false);
        }
        RunCase(c, a, o, g, sd, ids, false, false);
        Finish(c, o);
        c.in["big"] = true;
      });
  if (mode == "digest")
    for (int i = 0; i < 150 * mult; ++i)
      run.run("digest-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 31u + i * 104729u);
        Opt o; Side sd[2]; std::vector<int> ids[2];
        shape(o, g, sd, ids, 10);
        o.digest = true;
        int uni = R(g, 1, 7);
        Gen G = MakeKeys(g, 1, uni, 0);
        for (int p = 0; p < 2; ++p) { ids[p] = PickIds(g, uni, uni, true); o.uniq[p] = g() % 2; }
        if (g() % 4 == 0) ids[g() % 2].pop_back();
        for (int p = 0; p < 2; ++p) {
          if (ids[p].empty()) ids[p].push_back(1);
          sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 1, false);
        }
        RunCase(c, a, o, g, sd, ids, g() % 2, false);
        Finish(c, o);
      });
  // the two sides name different limits
  if (mode == "differ")
    for (int i = 0; i < 60 * mult; ++i)
      run.run("differ-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 11u + i * 104729u);
        Opt o; Side sd[2]; std::vector<int> ids[2];
        shape(o, g, sd, ids, 12);
        int d = g() % 2;
        long thr[2] = {o.thr, o.thr};
        thr[d] += R(g, 1, 4);
        o.tweak[d] = [&](v2::PsiConfig& f) { f.set_intersection_threshold(thr[d]); };
        Case t;
        Scratch S(a.tmp);
        RunIn(S, t, o, g, sd, ids, g() % 2, false);
        c.in = t.in;
        Finish(c, o);
        json rows = json::array();
        json st[2];
        for (auto& e : t.ev) if (e["e"] == "End") { st[e["p"] == "r"] = e["st"]; if (e["st"] == "ok" && e["out"]) rows.push_back(e["ikey"]); }
        c.add({{"e", "Differ"}, {"s", st[0]}, {"r", st[1]}, {"rows", rows}, {"thr", json::array({thr[0], thr[1]})}});
      });
  // unbalanced
  auto tables = [&](Rng& g, World& w, std::vector<int> ids[2], int uni) {
    Gen G = MakeKeys(g, R(g, 1, 2), uni, g() % 8);
    for (int p = 0; p < 2; ++p) {
      ids[p] = PickIds(g, uni, R(g, 1, 12), g() % 3 == 0);
      w.sd[p] = MakeSide(g, G, ids[p], p ? "c" : "s", false, 1, g() % 4 == 0);
      WriteCsv(w.in(p), w.sd[p].t);
    }
  };
  auto ubcase = [&](Case& c, World& w, const verif::NetResult& nr, const On& o, const std::vector<int> ids[2]) {
    Case t;
    json ts = TableEv(w, 0, ids[0])["t"], tr = TableEv(w, 1, ids[1])["t"];
    OnEv(t, w, nr, o, {}, true);
    c.in = {{"s", ts}, {"r", tr}, {"thr", o.thr}, {"gs", o.sg}, {"gr", o.cg}, {"both", true}, {"join", kJoin[o.join]}, {"left", o.left == 1 ? "s" : "r"}, {"align", o.align}};
    for (auto& e : t.ev[0]["end"]) { e["e"] = "End"; if (e["p"] == "c") e["p"] = "r"; c.add(e); }
    c.add({{"e", "Zip"}});
  };
  if (mode == "ub")
    for (int i = 0; i < 500 * mult; ++i)
      run.run("ub-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 101u + i * 104729u);
        World w(a.tmp);
        w.curve = std::vector<int>{4, 4, 2, 3}[g() % 4];
        for (auto& b : w.batch) b = std::vector<long>{0, 1, 2, 3, 7}[g() % 5];
        for (auto& k : w.kb) k = PickKb(g);
        w.keyfile = g() % 2;
        if (w.keyfile) { std::ofstream f(w.S / "key.bin", std::ios::binary); for (int k = 0; k < 32; ++k) f.put((char)(g() % 255 + 1)); }
        int uni = R(g, 1, 8);
        std::vector<int> ids[2];
        tables(g, w, ids, uni);
        On o;
        int k = g() % 4;
        o.sg = k != 1; o.cg = k != 2; o.align = g() % 4 != 0;
        o.join = g() % 2 ? g() % 2 : R(g, 2, 5); o.left = R(g, 1, 2);
        o.thr = g() % 5 == 0 ? 1000 : R(g, 1, uni);
        bool swap = g() % 3 == 0;
        verif::NetResult nr;
        if (g() % 3 == 0) nr = Act(w, UC::MODE_FULL, o, {}, true, swap);
        else {
          if (g() % 2) Act(w, UC::MODE_OFFLINE, o, {}, true, swap);
          else { Act(w, UC::MODE_OFFLINE_GEN_CACHE, o, {}, false); Act(w, UC::MODE_OFFLINE_TRANSFER_CACHE, o, {}, true, swap); }
          for (int n = R(g, 1, 2); n > 0; --n) {
            for (int p = 0; p < 2; ++p) { fs::remove(w.out(p)); fs::remove(w.out(p) + ".cnt"); }
            if (g() % 2) o.thr = R(g, 1, uni);
            nr = Act(w, UC::MODE_ONLINE, o, {}, true, swap);
          }
        }
        ubcase(c, w, nr, o, ids);
      });
  // a limited task that died is started again
  if (mode == "resume") {
    int nconf = 14 * (a.thorough ? 5 : 1), nfault = 12 * (a.thorough ? 4 : 1);
    for (int i = 0; i < nconf; ++i)
      for (int j = 0; j < nfault; ++j)
        run.run("resume-" + std::to_string(i) + "-" + std::to_string(j), [&](Case& c) {
          Rng g(a.seed * 977u + i * 65537u);
          Opt o; Side sd[2]; std::vector<int> ids[2];
          shape(o, g, sd, ids, 12);
          o.curve = 1; o.batch = R(g, 1, 4); o.bc = i % 3 != 0;
          bool sw = g() % 2;
          Rng h(i * 1009u + j * 31u + a.seed);
          long steps[2] = {0, 0}, frames = 0;
          {
            Scratch S(a.tmp);
            o.rec[0] = S / "rec-s"; o.rec[1] = S / "rec-r";
            Case d;
            auto nr = RunIn(S, d, o, g, sd, ids, sw, false);
            for (int p = 0; p < 2; ++p) steps[p] = nr.res[p].value("steps", 100l);
            frames = nr.frames;
          }
          Scratch S(a.tmp);
          o.rec[0] = S / "rec-s"; o.rec[1] = S / "rec-r";
          json ev = json::array();
          Fault ft;
          if (j % 6 == 5) ft.cut = R(h, 0, frames);
          else { ft.victim = j % 2; ft.at = 1 + (steps[ft.victim] * j + j / 2) / nfault + R(h, 0, 1); }
          Case t;
          auto nr = RunIn(S, t, o, g, sd, ids, sw, false, ft, "Early");
          ev.push_back({{"e", "Try"}, {"fault", ft.cut >= 0 ? "net" : ft.victim ? "r" : "s"}, {"s", nr.res[0]["st"]}, {"r", nr.res[1]["st"]}, {"at", ft.cut >= 0 ? ft.cut : ft.at}});
          Case last;
          RunIn(S, last, o, g, sd, ids, sw, false);
          for (auto& e : last.ev) ev.push_back(e);
          c.in = last.in;
          Finish(c, o);
          c.ev = ev;
        });
  }
  // what the peers tell each other about places
  if (mode == "wire")
    for (int i = 0; i < 120 * mult; ++i)
      run.run("wire-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 53u + i * 104729u);
        Scratch S(a.tmp);
        Opt o; Side sd[2]; std::vector<int> ids[2];
        shape(o, g, sd, ids, 12);
        o.join = 1;
        Fault ft; ft.record = true;
        Case t;
        auto nr = RunIn(S, t, o, g, sd, ids, false, false, ft);
        c.in = t.in; Finish(c, o);
        c.add({{"e", "Index"}, {"n", Lens(nr)}});
      });
  // every key is common and allowed: two lists of places, before and after
  auto order = [&](Case& c, const verif::NetResult nr[2], int asker) {
    json ask = json::array(), to = json::array();
    for (int n = 0; n < 2; ++n) {
      json x = json::array(), y = json::array();
      for (auto& f : nr[n].log) {
        std::vector<uint32_t> v;
        if (!IsList(f.bytes, v)) continue;
        json& d = (int)f.src == asker ? x : y;
        if (d.empty()) d = json(v);
      }
      ask.push_back(x); to.push_back(y);
    }
    c.add({{"e", "Order"}, {"ask", ask}, {"to", to}});
  };
  if (mode == "wire")
    for (int i = 0; i < 30 * mult; ++i)
      run.run("order-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 59u + i * 104729u);
        Opt o;
        o.proto = "ecdh"; o.join = 1; o.thr = 100; o.batch = i % 3 ? 64 : 0; o.bc = g() % 2;
        int uni = R(g, 12, 18);
        Gen G = MakeKeys(g, 1, uni, 7);
        Side sd[2]; std::vector<int> ids[2];
        for (int p = 0; p < 2; ++p) { ids[p] = PickIds(g, uni, uni, true); sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 0, false); }
        verif::NetResult nr[2];
        Fault ft; ft.record = true;
        Scratch S(a.tmp);
        Case t;
        for (auto& x : nr) x = RunIn(S, t, o, g, sd, ids, false, false, ft);
        c.in = t.in; Finish(c, o);
        order(c, nr, 1);
      });
  if (mode == "ubwire")
    for (int i = 0; i < 100 * mult; ++i)
      run.run("ubwire-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 61u + i * 104729u);
        World w(a.tmp);
        bool ord = i % 3 == 0;
        int uni = ord ? R(g, 12, 18) : R(g, 2, 14);
        Gen G = MakeKeys(g, 1, uni, 7);
        std::vector<int> ids[2];
        for (int p = 0; p < 2; ++p) {
          ids[p] = PickIds(g, uni, ord ? uni : R(g, 1, 14), ord || g() % 3 == 0);
          w.sd[p] = MakeSide(g, G, ids[p], p ? "c" : "s", false, 0, false);
          WriteCsv(w.in(p), w.sd[p].t);
        }
        On o;
        o.sg = g() % 2; o.cg = ord || !o.sg || g() % 2; o.thr = ord ? 100 : R(g, 1, 5);
        Act(w, UC::MODE_OFFLINE, o);
        Fault ft; ft.record = true;
        verif::NetResult nr[2];
        for (auto& x : nr) x = Act(w, UC::MODE_ONLINE, o, ft);
        json lens = Lens(nr[0]);
        c.in = {{"thr", o.thr}, {"s", TableEv(w, 0, ids[0])["t"]}, {"r", TableEv(w, 1, ids[1])["t"]}};
        c.add({{"e", "Index"}, {"n", lens}});
        if (ord) order(c, nr, 1);
      });
  run.finish();
}
