// The multi-party protocol of programmed functions: results and messages.
#include "mp.h"
#include "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.h"
static void KmCase(Case& c, Rng& g, bool wire, int big) {
  int n = R(g, 2, 5);
  int uni = big ? big : wire ? 40 : std::vector<int>{3, 8, 20, 60}[g() % 4];
  Sets sets = RandSets(g, n, uni, true);
  if (wire) for (auto& v : sets) v = Pick(g, uni, R(g, 10, uni));
  // items given more than once
  if (!wire && g() % 5 == 0) { auto& v = sets[g() % n]; for (int k = R(g, 1, 3); k > 0 && !v.empty(); --k) v.push_back(v[g() % v.size()]); }
  int leader = g() % n;
  auto go = [&](const std::vector<std::string>& w, bool rec) {
    std::map<std::string, int> id;
    for (int i = 0; i < uni; ++i) id[w[i]] = i + 1;
    return RunParties(n, rec, [&](int r, LinkP l) {
      psi::psi::KmprtParty p({l, (size_t)leader});
      std::vector<std::string> items;
      for (int k : sets[r]) items.push_back(w[k - 1]);
      return IdsOf(p.Run(items), id);
    });
  };
  // a set that does not fit into the tables stops the run; other words are tried then
  auto full = [](const MpRun& m) {
    for (auto& r : m.res) if (r["st"] != "ok" && r["err"].get<std::string>().find("Failed to insert") != std::string::npos) return true;
    return false;
  };
  auto words = [&] { return Words(g, uni, R(g, 4, 12), "w"); };
  if (!wire) {
    c.in = {{"sets", sets}, {"recv", leader}, {"bc", false}, {"type", "KMPRT"}};
    MpRun m;
    int k = 0;
    do m = go(words(), false); while (full(m) && ++k < 8);
    Ends(c, m);
    return;
  }
  c.in = {{"sets", json::array()}, {"recv", 0}, {"bc", false}, {"type", "KMPRTWIRE"}};
  std::vector<Win> left(n);
  long zeros = 0;
  for (int t = 0; t < 8; ++t) {
    auto w = words();
    bool again = false;
    zeros = 0;
    for (int k = 0; k < 3 && !again; ++k) {
      auto m = go(k == 2 ? words() : w, true);
      if (full(m)) { again = true; break; }
      if (!m.ok()) { Ends(c, m); return; }
      for (auto& x : m.log)
        for (size_t o = 0; o + 8 <= x.bytes.size() && x.bytes.size() >= 200; o += 8) zeros += x.bytes.compare(o, 8, std::string(8, '\0')) == 0;
      for (int p = 0; p < n; ++p) {
        Win x = WindowsOf(m.log, p, {});
        if (!k) left[p] = x;
        else if (k == 1) { Win y; for (auto z : left[p]) if (x.count(z)) y.insert(z); left[p] = y; }
        else for (auto z : x) left[p].erase(z);
      }
    }
    if (!again) break;
  }
  for (int p = 0; p < n; ++p) c.add({{"e", "Stable"}, {"p", p}, {"n", left[p].size()}});
  c.add({{"e", "Stable"}, {"p", -1}, {"n", zeros}});
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 12 : 1;
  auto many = [&](const char* what, int n, std::function<void(Case&, Rng&, int)> f) {
    for (int i = 0; i < n * mult; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); f(c, g, i); });
  };
  if (a.mode == "run") many("km", 300, [&](Case& c, Rng& g, int i) { KmCase(c, g, false, i % 300 == 5 ? 1500 : i % 300 == 6 ? 900 : 0); });
  if (a.mode == "wire") many("kmwire", 60, [&](Case& c, Rng& g, int) { KmCase(c, g, true, 0); });
  run.finish();
}
