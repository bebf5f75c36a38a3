// Runs of several parties as threads of this process.
#pragma once
#include <sys/random.h>
#include <mutex>
#include <thread>
#include "absl/strings/escaping.h"
#include "psi_env.h"
#include "win.h"
#include "yacl/link/link.h"
using namespace drv;
using namespace env;
using LinkP = std::shared_ptr<yacl::link::Context>;
// 32-byte random draws made by each party's own thread: candidates for its private key
inline thread_local int tl_party = -1;
static std::mutex g_rm;
static std::map<int, std::vector<std::string>> g_draw;
extern "C" int RAND_bytes(unsigned char* p, int n) {
  for (int o = 0; o < n;) { ssize_t k = getrandom(p + o, n - o, 0); if (k <= 0) return 0; o += k; }
  if (n == 32) { std::lock_guard<std::mutex> l(g_rm); if (g_draw[tl_party].size() < 6) g_draw[tl_party].emplace_back((char*)p, 32); }
  return 1;
}
struct MpRun {
  std::vector<json> res;
  std::vector<verif::WireMsg> log;
  int timeouts = 0;
  bool ok() const { for (auto& r : res) if (r["st"] != "ok") return false; return true; }
};
// fn runs as party r of n; what it returns is its result
inline MpRun RunParties(int n, bool record, const std::function<json(int, LinkP)>& fn, int64_t timeout_ms = 20000,
                        std::function<void(verif::Hub&)> prep = nullptr) {
  auto hub = std::make_shared<verif::Hub>(n);
  hub->record = record;
  hub->default_timeout_ms = timeout_ms;
  if (prep) prep(*hub);
  std::vector<size_t> group;
  for (int i = 0; i < n; ++i) group.push_back(i);
  MpRun R;
  R.res.resize(n);
  { std::lock_guard<std::mutex> l(g_rm); g_draw.clear(); }
  std::vector<std::thread> th;
  for (int r = 0; r < n; ++r)
    th.emplace_back([&, r] {
      tl_party = r;
      auto l = std::make_shared<yacl::link::Context>(hub, "mp", group, r);
      try { R.res[r] = {{"st", "ok"}, {"v", fn(r, l)}}; }
      catch (const std::exception& e) { R.res[r] = {{"st", "throw"}, {"err", std::string(e.what()).substr(0, 120)}}; hub->Close(r); }
    });
  for (auto& t : th) t.join();
  R.timeouts = hub->timeouts_;
  R.log = std::move(hub->log);
  return R;
}
// distinct words of one length
inline std::vector<std::string> Words(Rng& g, int n, int len, const std::string& pre) {
  std::set<std::string> s;
  while ((int)s.size() < n) s.insert(pre + RandWord(g, len));
  std::vector<std::string> v(s.begin(), s.end());
  std::shuffle(v.begin(), v.end(), g);
  return v;
}
// k of the numbers 1..n in random order
inline std::vector<int> Pick(Rng& g, int n, int k) {
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i) v[i] = i + 1;
  std::shuffle(v.begin(), v.end(), g);
  v.resize(std::min(n, k));
  return v;
}
using Sets = std::vector<std::vector<int>>;
// sets with a common part, of very different sizes now and then
static Sets RandSets(Rng& g, int n, int uni, bool empties) {
  Sets s(n);
  int common = R(g, 0, 3) ? R(g, 0, uni / 2) : 0;
  auto core = Pick(g, uni, common);
  for (auto& v : s) {
    int extra = std::vector<int>{0, 1, 3, uni / 2, uni}[g() % 5];
    std::set<int> x(core.begin(), core.end());
    for (int k : Pick(g, uni, extra)) x.insert(k);
    v.assign(x.begin(), x.end());
    if (v.empty() && !empties) v.push_back(R(g, 1, uni));
    std::shuffle(v.begin(), v.end(), g);
  }
  if (empties && g() % 12 == 0) s[g() % n].clear();
  return s;
}
static json IdsOf(const std::vector<std::string>& res, const std::map<std::string, int>& id) {
  json j = json::array();
  for (auto& r : res) j.push_back(id.count(r) ? id.at(r) : -1);
  return j;
}
static std::string U128(uint128_t v) { return std::string((char*)&v, 16); }
static void Ends(Case& c, const MpRun& m) {
  for (size_t p = 0; p < m.res.size(); ++p) {
    if (m.res[p]["st"] != "ok") c.add({{"e", "Failed"}, {"p", p}, {"err", m.res[p]["err"]}});
    else c.add({{"e", "End"}, {"p", p}, {"res", m.res[p]["v"]}});
  }
  c.add({{"e", "Over"}, {"timeouts", m.timeouts}});
}
