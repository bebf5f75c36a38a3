// Private look-up by linear algebra (SimplePIR) over real links.
#include "mp.h"
#include "experiment/pir/simplepir/client.h"
#include "experiment/pir/simplepir/network_util.h"
#include "experiment/pir/simplepir/server.h"
#include "yacl/crypto/tools/prg.h"
using namespace pir::simple;
using V = std::vector<uint64_t>;
struct World {
  size_t dim, rows;
  uint64_t q, p;
  int radius;
  double sigma;
  std::vector<V> db;
  V pool;
  std::unique_ptr<SimplePirServer> sv;
  std::vector<LinkP> l;
  World(Rng& g, size_t dim_, size_t rows_, uint64_t q_, uint64_t p_, int r, double s) : dim(dim_), rows(rows_), q(q_), p(p_), radius(r), sigma(s) {
    auto hub = std::make_shared<verif::Hub>(2);
    for (int i = 0; i < 2; ++i) l.push_back(std::make_shared<yacl::link::Context>(hub, "sp", std::vector<size_t>{0, 1}, i));
    sv = std::make_unique<SimplePirServer>(dim, q, rows * rows, p);
    Fill(g);
  }
  static uint64_t Any(Rng& g) { return ((uint64_t)g() << 32) | (uint32_t)g(); }
  void Fill(Rng& g) {
    pool = {0, p - 1, 1 % p, p / 2};
    for (int i = 0; i < 12; ++i) pool.push_back(Any(g) % p);
    std::sort(pool.begin(), pool.end());
    pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
    int kind = g() % 4;   // any, small, the largest everywhere, one place
    db.assign(rows, V(rows, kind == 2 ? p - 1 : 0));
    for (auto& r : db) for (auto& x : r) if (kind < 2) x = pool[g() % (kind ? std::min<size_t>(2, pool.size()) : pool.size())];
    if (kind == 3) db[g() % rows][g() % rows] = p - 1;
    sv->SetDatabase(db);
    sv->GenerateLweMatrix();
  }
  json Open() {
    json d = json::array();
    for (auto& r : db) for (auto x : r) d.push_back(Name(x));
    return {{"e", "Open"}, {"db", d}, {"q", std::to_string(q)}, {"p", std::to_string(p)}, {"dim", dim}};
  }
  int Name(uint64_t x) { for (size_t i = 0; i < pool.size(); ++i) if (pool[i] == x) return i + 1; return 0; }
  void Setup(SimplePirClient& c) {
    uint128_t seed = 0;
    V hint;
    SendUint128(sv->GetSeed(), l[0]);
    RecvUint128(seed, l[1]);
    SendVector(sv->GetHint(), l[0]);
    RecvVector(hint, l[1]);
    c.Setup(seed, hint);
  }
  SimplePirClient Client() { SimplePirClient c(dim, q, rows * rows, p, radius, sigma); Setup(c); return c; }
  V Ask(SimplePirClient& c, size_t x, json& e) {
    V qu = c.Query(x), got, ans, back;
    SendVector(qu, l[1]);
    RecvVector(got, l[0]);
    ans = sv->Answer(got);
    SendVector(ans, l[0]);
    RecvVector(back, l[1]);
    uint64_t big = 0;
    for (auto v : got) big += v >= q;
    e = {{"e", "Look"}, {"x", x}, {"got", Name(c.Recover(back))}, {"val", Name(sv->GetValue(x))}, {"len", got.size()}, {"big", big}};
    return got;
  }
};
// parameters whose errors always fit
static void Params(Rng& g, size_t rows, uint64_t& q, uint64_t& p, int& radius, double& sigma) {
  for (;;) {
    int kind = g() % 5, b = R(g, 10, 56);
    q = kind < 2 ? 1ull << b : kind == 2 ? (1ull << b) - R(g, 1, 99) : (1ull << b) + World::Any(g) % (1ull << b);
    if (q >= 1ull << 57) continue;
    radius = R(g, 1, 6);
    sigma = std::vector<double>{0.5, 1, 3.2, 6.8, 6.4}[g() % 5];
    p = 2 + World::Any(g) % (1ull << R(g, 1, 40));
    __int128 worst = (__int128)rows * (p - 1) * (int)(radius * sigma);
    if (2 * (worst + q % p) + 2 + 64 <= (__int128)(q / p)) return;
  }
}
static void Right(Case& c, Rng& g, int asks) {
  size_t rows = R(g, 1, g() % 3 ? 8 : 40);
  uint64_t q, p;
  int radius;
  double sigma;
  Params(g, rows, q, p, radius, sigma);
  World w(g, R(g, 1, 40), rows, q, p, radius, sigma);
  c.add(w.Open());
  std::vector<SimplePirClient> cl;
  for (int k = R(g, 1, 2); k > 0; --k) cl.push_back(w.Client());
  json e;
  for (int i = 0; i < asks; ++i) {
    if (g() % 25 == 0) { w.Fill(g); for (auto& x : cl) w.Setup(x); c.add(w.Open()); }
    auto& x = cl[g() % cl.size()];
    if (g() % 9 == 0) x.Query(g() % (rows * rows));   // a question that is never sent
    w.Ask(x, g() % 4 ? g() % (rows * rows) : i % (rows * rows), e);
    c.add(e);
  }
}
static void Fresh(Case& c, Rng& g) {
  World w(g, R(g, 1, 20), R(g, 4, 12), (1ull << 40) + g() % 2 * 15, 17, 4, 6.8);
  c.add(w.Open());
  auto a = w.Client(), b = w.Client();
  json e;
  for (int i = 0; i < 20; ++i) {
    size_t x = g() % (w.rows * w.rows);
    V u = w.Ask(a, x, e), v = w.Ask(g() % 2 ? a : b, x, e);
    long same = 0;
    for (size_t k = 0; k < u.size(); ++k) same += u[k] == v[k];
    c.add({{"e", "Fresh"}, {"same", same}});
  }
}
// small enough to find secret and errors
static void Noise(Case& c, Rng& g) {
  uint64_t q = std::vector<uint64_t>{509, 2003, 31337}[g() % 3], p = R(g, 2, 5);
  int sigma = R(g, 2, 6), radius = R(g, 4, 5), lim = sigma * radius;
  size_t rows = R(g, 12, 20);
  World w(g, 1, rows, q, p, radius, sigma);
  w.db.assign(rows, V(rows, 0));
  w.sv->SetDatabase(w.db);
  c.in["sigma"] = sigma;
  c.in["lim"] = lim;
  auto cl = w.Client();
  V r = yacl::crypto::PrgAesCtr<uint64_t>(w.sv->GetSeed(), rows);
  json a = json::array();
  for (auto& x : r) { x %= q; a.push_back(x); }
  size_t base = 0;
  while (r[base] == 0) ++base;
  uint64_t inv = 1;
  for (uint64_t t = r[base], k = q - 2; k; k >>= 1, t = t * t % q) if (k & 1) inv = inv * t % q;
  c.add({{"e", "Small"}, {"q", q}, {"p", p}, {"a", a}});
  json e;
  for (int i = 0; i < 60; ++i) {
    size_t x = g() % (rows * rows), col = x % rows;
    V qu = w.Ask(cl, x, e);
    json er = json::array();
    int64_t s = -1;
    for (int e0 = -lim; e0 <= lim && s < 0; ++e0) {
      uint64_t t = (qu[base] + 2 * q - e0 - (base == col ? q / p : 0)) % q * inv % q;
      json z = json::array();
      for (size_t k = 0; k < rows; ++k) {
        int64_t d = (int64_t)((qu[k] + 2 * q - r[k] * t % q - (k == col ? q / p : 0)) % q);
        if (d > (int64_t)q / 2) d -= q;
        if (d < -lim || d > lim) break;
        z.push_back(d);
      }
      if (z.size() == rows) { s = t; er = z; }
    }
    c.add({{"e", "Lwe"}, {"col", col + 1}, {"s", s}, {"err", er}, {"qu", qu}});
  }
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 10 : 1;
  auto many = [&](const char* what, int n, std::function<void(Case&, Rng&, int)> f) {
    for (int i = 0; i < n * mult; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); c.in["sigma"] = 1; c.in["lim"] = 1; f(c, g, i); });
  };
  many("right", 600, [&](Case& c, Rng& g, int) { Right(c, g, 40); });
  many("fresh", 40, [&](Case& c, Rng& g, int) { Fresh(c, g); });
  many("noise", 60, [&](Case& c, Rng& g, int) { Noise(c, g); });
  run.finish();
}
