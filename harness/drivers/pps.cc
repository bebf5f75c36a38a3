// Private look-up with punctured sets (two servers): questions and answers over real links.
#include "mp.h"
#include "experiment/pir/pps/client.h"
#include "experiment/pir/pps/receiver.h"
#include "experiment/pir/pps/sender.h"
#include "experiment/pir/pps/server.h"
using namespace pir::pps;
using Bits = yacl::dynamic_bitset<>;
static std::vector<LinkP> Pair() {
  auto hub = std::make_shared<verif::Hub>(2);
  return {std::make_shared<yacl::link::Context>(hub, "pps", std::vector<size_t>{0, 1}, 0), std::make_shared<yacl::link::Context>(hub, "pps", std::vector<size_t>{0, 1}, 1)};
}
struct World {
  uint64_t n, s;
  Bits db;
  json bits = json::array();
  PpsPirServer off, on;
  PPS open;   // what anybody can do with a question
  std::vector<LinkP> a, b;
  World(Rng& g, uint64_t n_, uint64_t s_) : n(n_), s(s_), db(n_), off(n_, s_), on(n_, s_), open(n_, s_), a(Pair()), b(Pair()) {
    int kind = g() % 4;   // any, few ones, all ones, one place
    for (uint64_t i = 0; i < n; ++i) db[i] = kind == 0 ? g() % 2 : kind == 1 ? g() % 7 == 0 : kind == 2;
    if (kind == 3) db[g() % n] = true;
    for (uint64_t i = 0; i < n; ++i) bits.push_back(db[i] ? 1 : 0);
  }
  json Open(uint64_t m) { return {{"e", "Open"}, {"n", n}, {"s", s}, {"db", bits}, {"m", m}}; }
  json View(PIRPuncKey& q) {
    std::set<uint64_t> set;
    open.Eval(q, set);
    json v = json::array();
    for (auto x : set) v.push_back((x + q.delta_) % n);
    return {{"set", v}, {"d", q.delta_}, {"pos", q.pos_}};
  }
  PIRPuncKey Carry(PIRPuncKey& q) { PIRPuncKey r; r.k_.resize(3); ClientSendToOnlineServer(q, b[0]); OnlineServerRecvFromClient(r, b[1]); return r; }
  bool Back(bool x) { bool y; OnlineServerSendToClient(x, b[1]); ClientRecvFromOnlineServer(y, b[0]); return y; }
  Bits BackHint(Bits& h) { Bits r; OfflineServerSendToClient(h, a[1]); ClientRecvFromOfflineServer(r, a[0]); return r; }
};
struct One {   // one question per setup
  PIRKey sk = 0;
  std::set<uint64_t> deltas;
  Bits h;
  void Setup(World& w, PpsPirClient& c) {
    c.Setup(sk, deltas);
    PIRKey k2 = 0;
    std::set<uint64_t> d2{1, 2, 3};
    ClientSendToOfflineServer(sk, deltas, w.a[0]);
    OfflineServerRecvFromClient(k2, d2, w.a[1]);
    Bits h2;
    w.off.Hint(k2, d2, w.db, h2);
    h = w.BackHint(h2);
  }
  json Ask(World& w, PpsPirClient& c, uint64_t x, PIRPuncKey& q, PIRQueryParam& p) {
    c.Query(x, sk, deltas, p, q);
    auto q2 = w.Carry(q);
    bool r = false, a = w.Back(w.on.Answer(q2, w.db));
    auto st = c.Reconstruct(p, h, a, r);
    json e = {{"e", "One"}, {"x", x}, {"q", w.View(q2)}, {"st", st == PIR_OK ? "ok" : st == PIR_ABORT ? "abort" : "?"}, {"got", r ? 1 : 0}};
    return e;
  }
};
struct Many {
  std::vector<PIRKeyUnion> ck;
  std::vector<std::unordered_set<uint64_t>> v;
  Bits h;
  void Setup(World& w, PpsPirClient& c) {
    c.Setup(ck, v);
    std::vector<PIRKeyUnion> k2;
    ClientSendToOfflineServerM(ck, w.a[0]);
    OfflineServerRecvFromClientM(k2, w.a[1]);
    Bits h2;
    w.off.Hint(k2, w.db, h2);
    h = w.BackHint(h2);
  }
  json Ask(World& w, PpsPirClient& c, uint64_t x, PIRQueryParam& p, PIRPuncKey& l, PIRPuncKey& r) {
    c.Query(x, ck, v, p, l, r);
    auto l2 = w.Carry(l), r2 = w.Carry(r);
    bool al = false, ar = false, got = false;
    w.on.AnswerMulti(l2, r2, al, ar, w.db);
    al = w.Back(al), ar = w.Back(ar);
    auto st = c.Reconstruct(p, h, al, ar, got);
    return {{"e", "Many"}, {"x", x}, {"q", w.View(l2)}, {"r", w.View(r2)}, {"st", st == PIR_OK ? "ok" : st == PIR_ABORT ? "abort" : "?"}, {"got", got ? 1 : 0}};
  }
};
// sizes that go together
static std::pair<uint64_t, uint64_t> Sizes(Rng& g, uint64_t lo, uint64_t hi) {
  for (;;) {
    uint64_t n = R(g, lo, hi), s = R(g, 2, 60);
    PpsPirClient c;
    if (s * s < n / 2 || s * s > 2 * n) continue;
    uint64_t m = (n + s - 1) / s * (uint64_t)std::ceil(std::log(n));
    if (m <= n * 8 / 10) return {n, s};
  }
}
static uint64_t Pick(Rng& g, uint64_t n, int kind, uint64_t last, int i) {
  return kind == 0 ? g() % n : kind == 1 ? (i && g() % 3 ? last : g() % n) : kind == 2 ? i % n : g() % 2 ? (last + 1) % n : last;
}
static void RightOne(Case& c, Rng& g, int asks) {
  auto [n, s] = Sizes(g, 4, g() % 3 ? 60 : 800);
  World w(g, n, s);
  auto cl = std::make_unique<PpsPirClient>(1000, n, s);
  std::vector<One> st(R(g, 1, 3));
  for (auto& x : st) x.Setup(w, *cl);
  Many side;
  if (g() % 3 == 0) side.Setup(w, *cl);
  c.add(w.Open(st[0].deltas.size()));
  PIRPuncKey q;
  PIRQueryParam p;
  int kind = g() % 4;
  uint64_t last = 0;
  for (int i = 0; i < asks; ++i) {
    if (g() % 10 == 0) cl = std::make_unique<PpsPirClient>(1000, n, s);   // the keys are kept, the client is not
    last = Pick(g, n, kind, last, i);
    PIRPuncKey q1;
    PIRQueryParam p1;
    bool again = g() % 2;
    c.add(st[g() % st.size()].Ask(w, *cl, last, again ? q : q1, again ? p : p1));
    if (!side.ck.empty() && g() % 2) { PIRPuncKey l, r; c.add(side.Ask(w, *cl, last, p1, l, r)); }
  }
}
static void RightMany(Case& c, Rng& g, int asks) {
  auto [n, s] = Sizes(g, 4, g() % 3 ? 60 : 500);
  World w(g, n, s);
  PpsPirClient cl(1000, n, s);
  std::vector<Many> st(R(g, 1, 2));
  for (auto& x : st) x.Setup(w, cl);
  c.add(w.Open(st[0].ck.size()));
  int kind = g() % 4;
  uint64_t last = 0;
  PIRPuncKey l0, r0;
  PIRQueryParam p0;
  for (int i = 0; i < asks; ++i) {
    last = Pick(g, n, kind, last, i);
    PIRPuncKey l, r;
    PIRQueryParam p;
    bool again = g() % 2;
    c.add(st[g() % st.size()].Ask(w, cl, last, again ? p0 : p, again ? l0 : l, again ? r0 : r));
  }
}
static void SeenOne(Case& c, Rng& g, int asks) {
  auto [n, s] = Sizes(g, 5, 20);
  World w(g, n, s);
  c.add(w.Open(0));
  PpsPirClient cl(1000, n, s);
  bool fix = g() % 2;
  uint64_t x = g() % n;
  for (int i = 0; i < asks; ++i) {
    One o;
    PIRPuncKey q;
    PIRQueryParam p;
    o.Setup(w, cl);
    c.add(o.Ask(w, cl, fix ? x : g() % n, q, p));
  }
}
static void SeenMany(Case& c, Rng& g, int sessions, int asks) {
  auto [n, s] = Sizes(g, 5, 20);
  World w(g, n, s);
  PpsPirClient cl(1000, n, s);
  int kind = g() % 4;
  for (int k = 0; k < sessions; ++k) {
    Many m;
    m.Setup(w, cl);
    c.add(w.Open(0));
    uint64_t last = 0;
    for (int i = 0; i < asks; ++i) {
      last = Pick(g, n, kind, last, i);
      PIRPuncKey l, r;
      PIRQueryParam p;
      c.add(m.Ask(w, cl, last, p, l, r));
    }
  }
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 10 : 1;
  auto many = [&](const char* what, int n, bool tally, std::function<void(Case&, Rng&, int)> f) {
    for (int i = 0; i < n * mult; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); c.in["tally"] = tally; f(c, g, i); });
  };
  many("one", 64, false, [&](Case& c, Rng& g, int) { RightOne(c, g, 60); });
  many("many", 64, false, [&](Case& c, Rng& g, int) { RightMany(c, g, R(g, 20, 120)); });
  many("seenone", 24, true, [&](Case& c, Rng& g, int) { SeenOne(c, g, 1500); });
  many("seenmany", 24, true, [&](Case& c, Rng& g, int) { SeenMany(c, g, 100, 12); });
  run.finish();
}
