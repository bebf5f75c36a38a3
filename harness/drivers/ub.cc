// Unbalanced PSI: histories of cache generation, transfer and online runs, with and without faults.
#include "ub.h"
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 10 : 1;
  auto newTable = [&](Rng& g, World& w, const Gen& G, int p, int maxrows, std::vector<int>& ids) {
    ids = PickIds(g, G.universe, R(g, 1, maxrows), g() % 3 == 0);
    static int serial = 0;
    auto cols = w.sd[p].t.cols;
    auto keys = w.sd[p].keys;
    w.sd[p] = MakeSide(g, G, ids, (p ? "c" : "s") + std::to_string(++serial % 10), false, 1, g() % 4 == 0);
    // names stay from version to version, as in a file that was refreshed
    if (!keys.empty()) {
      int n = 0;
      for (auto& k : w.sd[p].keys) { for (auto& x : w.sd[p].t.cols) if (x == k) x = keys[n]; ++n; }
      w.sd[p].keys = keys;
    }
    WriteCsv(w.in(p), w.sd[p].t);
  };
  auto randOn = [&](Rng& g) {
    On o;
    int k = g() % 4;
    o.sg = k != 1; o.cg = k != 2;
    o.align = g() % 4 != 0;
    o.join = g() % 2 ? g() % 2 : R(g, 2, 5);
    o.left = R(g, 1, 2);
    if (g() % 4 == 0) o.nrep = "NA";
    return o;
  };
  auto clean = [&](World& w) { for (int p = 0; p < 2; ++p) fs::remove(w.out(p)); };
  if (a.mode == "modes" || a.mode == "crash") {
    bool crash = a.mode == "crash";
    for (int i = 0; i < (crash ? 900 : 1500) * mult; ++i)
      run.run(a.mode + "-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 7919u + i * 104729u + (crash ? 17 : 0));
        World w(a.tmp);
        w.curve = std::vector<int>{4, 4, 4, 2, 3}[g() % 5];
        for (auto& b : w.batch) b = std::vector<long>{0, 1, 2, 3, 7}[g() % 5];
        for (auto& k : w.kb) k = PickKb(g);
        w.keyfile = g() % 2;
        if (w.keyfile) { std::ofstream f(w.S / "key.bin", std::ios::binary); for (int k = 0; k < 32; ++k) f.put((char)(g() % 255 + 1)); }
        Gen G = MakeKeys(g, R(g, 1, 3), R(g, 1, 14), g() % 8);
        std::vector<int> ids[2];
        for (int p = 0; p < 2; ++p) { newTable(g, w, G, p, 14, ids[p]); c.add(TableEv(w, p, ids[p])); }
        c.in = {{"keyfile", w.keyfile}, {"curve", w.curve}, {"bs", w.batch[0]}, {"bc", w.batch[1]}};
        bool swap = g() % 3 == 0;
        // steps of each stage, to place faults
        auto fault = [&](UC::Mode m, const On& o, bool both) {
          Fault ft;
          if (!crash || g() % 3 == 0) return ft;
          World x(a.tmp);
          x.curve = w.curve; x.batch[0] = w.batch[0]; x.batch[1] = w.batch[1]; x.kb[0] = w.kb[0]; x.kb[1] = w.kb[1];
          for (int p = 0; p < 2; ++p) { x.sd[p] = w.sd[p]; WriteCsv(x.in(p), x.sd[p].t); }
          if (m == UC::MODE_OFFLINE_TRANSFER_CACHE || m == UC::MODE_ONLINE) Act(x, UC::MODE_OFFLINE_GEN_CACHE, o, {}, false);
          if (m == UC::MODE_ONLINE) Act(x, UC::MODE_OFFLINE_TRANSFER_CACHE, o);
          auto nr = Act(x, m, o, {}, both, swap);
          setenv("TMPDIR", (w.S.dir + "/tmp").c_str(), 1);
          if (both && g() % 4 == 0) ft.cut = R(g, 0, nr.frames);
          else {
            ft.victim = both ? g() % 2 : 0;
            ft.at = R(g, 1, std::max<long>(1, nr.res[ft.victim].value("steps", 10l)));
          }
          return ft;
        };
        int rounds = R(g, 1, 2);
        for (int r = 0; r < rounds; ++r) {
          if (r) { newTable(g, w, G, 0, 14, ids[0]); c.add(TableEv(w, 0, ids[0])); }
          On o = randOn(g);
          int how = g() % 4;
          int tries = crash ? 2 : 1;
          bool done = false;
          for (int t = 0; t < tries && !done; ++t) {
            auto f = [&](UC::Mode m, bool both) { return t == 0 && r == rounds - 1 ? fault(m, o, both) : Fault{}; };
            if (how == 0) {
              clean(w);
              auto ft = f(UC::MODE_FULL, true);
              auto nr = Act(w, UC::MODE_FULL, o, ft, true, swap);
              OnEv(c, w, nr, o, ft, true);
              done = nr.res[0]["st"] == "ok" && nr.res[1]["st"] == "ok";
            } else if (how == 1) {
              auto ft = f(UC::MODE_OFFLINE, true);
              auto nr = Act(w, UC::MODE_OFFLINE, o, ft, true, swap);
              Off(c, "offline", nr, ft);
              done = nr.res[0]["st"] == "ok" && nr.res[1]["st"] == "ok";
            } else {
              auto ft = f(UC::MODE_OFFLINE_GEN_CACHE, false);
              auto nr = Act(w, UC::MODE_OFFLINE_GEN_CACHE, o, ft, false);
              Off(c, "gen", nr, ft);
              auto ft2 = ft.victim < 0 ? f(UC::MODE_OFFLINE_TRANSFER_CACHE, true) : Fault{};
              auto n2 = Act(w, UC::MODE_OFFLINE_TRANSFER_CACHE, o, ft2, true, swap);
              Off(c, "transfer", n2, ft2);
              done = nr.res[0]["st"] == "ok" && n2.res[0]["st"] == "ok" && n2.res[1]["st"] == "ok";
            }
            if (!done && t + 1 < tries && g() % 4 != 0) {  // the online run is tried although the offline part failed
              clean(w);
              auto nr = Act(w, UC::MODE_ONLINE, o, {}, true, swap);
              OnEv(c, w, nr, o, {}, false);
            }
          }
          int ons = R(g, 1, 2);
          for (int k = 0; k < ons; ++k) {
            if (k) { newTable(g, w, G, 1, 14, ids[1]); c.add(TableEv(w, 1, ids[1])); }
            On q = randOn(g);
            clean(w);
            Fault ft = crash && k == 0 && g() % 2 ? fault(UC::MODE_ONLINE, q, true) : Fault{};
            auto nr = Act(w, UC::MODE_ONLINE, q, ft, true, swap);
            OnEv(c, w, nr, q, ft, false);
            if (ft.victim >= 0 || ft.cut >= 0) {
              clean(w);
              OnEv(c, w, Act(w, UC::MODE_ONLINE, q, {}, true, swap), q, {}, false);
            }
          }
        }
      });
  }
  run.finish();
}
