// Key-value stores hidden in a table: what is put in comes back.
#include "mp.h"
#include "psi/algorithm/rr22/okvs/baxos.h"
#include "yacl/crypto/rand/rand.h"
using namespace psi::rr22::okvs;
using U = uint128_t;
using PrgP = std::shared_ptr<yacl::crypto::Prg<uint8_t>>;
static U Rand128(Rng& g) { U v = 0; for (int i = 0; i < 4; ++i) v = (v << 32) | (uint32_t)g(); return v; }
static std::vector<U> RandKeys(Rng& g, size_t n) {
  std::vector<U> k;
  std::set<std::pair<uint64_t, uint64_t>> seen;
  int kind = g() % 4;   // random, small numbers, differing in the upper half only, powers of two
  U base = Rand128(g);
  for (size_t i = 0; k.size() < n; ++i) {
    U v = kind == 0 ? Rand128(g) : kind == 1 ? (U)i : kind == 2 ? base ^ ((U)i << 64) : i < 128 ? (U)1 << i : Rand128(g);
    if (seen.insert({(uint64_t)(v >> 64), (uint64_t)v}).second) k.push_back(v);
  }
  return k;
}
static PrgP NewPrg(Rng& g, bool rnd) { return rnd ? std::make_shared<yacl::crypto::Prg<uint8_t>>(Rand128(g)) : nullptr; }
// a store of either kind behind the same face
struct Store {
  size_t n = 0;
  virtual ~Store() = default;
  virtual size_t size() = 0;
  virtual std::vector<U> Enc(std::vector<U> k, std::vector<U> v, const PrgP& p) = 0;
  virtual std::vector<U> Dec(const std::vector<U>& k, std::vector<U>& t) = 0;
};
template <typename I>
struct One : Store {
  U seed; size_t w; PaxosParam::DenseType dt; bool u64;
  One(size_t num, size_t w_, bool bin, bool u, U s) : seed(s), w(w_), dt(bin ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128), u64(u) { n = num; }
  size_t size() override { return PaxosParam(n, w, 40, dt).size(); }
  std::vector<U> Enc(std::vector<U> k, std::vector<U> v, const PrgP& p) override {
    Paxos<I> x;
    x.Init(n, w, 40, dt, seed);
    x.SetInput(absl::MakeConstSpan(k));
    std::vector<U> t(x.size(), 0);
    if (!u64) { x.Encode(absl::MakeSpan(v), absl::MakeSpan(t), p); return t; }
    std::vector<uint64_t> v6(v.begin(), v.end()), t6(x.size(), 0);
    x.EncodeU64(absl::MakeSpan(v6), absl::MakeSpan(t6), p);
    for (size_t i = 0; i < t.size(); ++i) t[i] = t6[i];
    return t;
  }
  std::vector<U> Dec(const std::vector<U>& k, std::vector<U>& t) override {
    Paxos<I> x;   // the reader knows the parameters only
    x.Init(n, w, 40, dt, seed);
    std::vector<U> o(k.size(), 77);
    if (!u64) { x.Decode(absl::MakeConstSpan(k), absl::MakeSpan(o), absl::MakeSpan(t)); return o; }
    std::vector<uint64_t> o6(k.size(), 77), t6(t.begin(), t.end());
    x.DecodeU64(absl::MakeConstSpan(k), absl::MakeSpan(o6), absl::MakeSpan(t6));
    for (size_t i = 0; i < o.size(); ++i) o[i] = o6[i];
    return o;
  }
};
struct Bins : Store {
  size_t bin, w; bool b; U seed; int tw, tr; bool add;
  Bins(size_t room, size_t bin_, size_t w_, bool b_, U s, int tw_, int tr_, bool add_) : bin(bin_), w(w_), b(b_), seed(s), tw(tw_), tr(tr_), add(add_) { n = room; }
  Baxos Make() { Baxos x; x.Init(n, bin, w, 40, b ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128, seed); return x; }
  size_t size() override { return Make().size(); }
  std::vector<U> Enc(std::vector<U> k, std::vector<U> v, const PrgP& p) override {
    Baxos x = Make();
    std::vector<U> t(x.size(), 0);
    x.Solve(absl::MakeConstSpan(k), absl::MakeSpan(v), absl::MakeSpan(t), p, tw);
    return t;
  }
  std::vector<U> Dec(const std::vector<U>& k, std::vector<U>& t) override {
    Baxos x = Make();
    x.add_to_decode_ = add;
    std::vector<U> o(k.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = (U)i * 977;
    x.Decode(absl::MakeConstSpan(k), absl::MakeSpan(o), absl::MakeSpan(t), tr);
    if (add) for (size_t i = 0; i < o.size(); ++i) o[i] ^= (U)i * 977;
    return o;
  }
};
static std::shared_ptr<Store> MakeStore(Rng& g, size_t n, bool bins, size_t room) {
  size_t w = std::vector<size_t>{3, 3, 3, 4, 5}[g() % 5];
  bool bin = g() % 3 == 0;
  U seed = Rand128(g);
  if (bins) {
    size_t size = g() % 4 == 0 ? room : std::max<size_t>(16, room / R(g, 1, 9));
    return std::make_shared<Bins>(room, size, w, bin, seed, R(g, 0, 8), R(g, 0, 8), g() % 4 == 0);
  }
  bool u64 = bin && g() % 2;
  size_t sparse = PaxosParam(n, w, 40, bin ? PaxosParam::DenseType::Binary : PaxosParam::DenseType::GF128).size();
  int k = g() % 4;
  if (k == 0 && sparse < 250) return std::make_shared<One<uint8_t>>(n, w, bin, u64, seed);
  if (k == 1 && sparse < 65000) return std::make_shared<One<uint16_t>>(n, w, bin, u64, seed);
  if (k == 2) return std::make_shared<One<uint64_t>>(n, w, bin, u64, seed);
  return std::make_shared<One<uint32_t>>(n, w, bin, u64, seed);
}
// names of values: position in the pool, 0 for anything else
struct Pool {
  std::vector<U> v;
  Pool(Rng& g, int n) { v.push_back(0); for (int i = 1; i < n; ++i) v.push_back(g() % 9 ? Rand128(g) : (U)i); }
  int Name(U x, bool u64) const { for (size_t i = 0; i < v.size(); ++i) if (u64 ? (uint64_t)v[i] == (uint64_t)x : v[i] == x) return i + 1; return 0; }
};
static void OkvsCase(Case& c, Rng& g, bool bins, bool rnd, size_t most) {
  size_t n = g() % 3 == 0 ? R(g, 1, 12) : R(g, 1, most);
  size_t room = bins && g() % 2 ? n + R(g, 0, n) : n;
  auto s = MakeStore(g, n, bins, room);
  bool u64 = dynamic_cast<One<uint8_t>*>(s.get()) ? ((One<uint8_t>*)s.get())->u64 : dynamic_cast<One<uint16_t>*>(s.get()) ? ((One<uint16_t>*)s.get())->u64
           : dynamic_cast<One<uint32_t>*>(s.get()) ? ((One<uint32_t>*)s.get())->u64 : dynamic_cast<One<uint64_t>*>(s.get()) ? ((One<uint64_t>*)s.get())->u64 : false;
  auto keys = RandKeys(g, n + 40);
  Pool pool(g, 12);
  std::vector<U> vals(n);
  json names = json::array();
  for (auto& v : vals) { int k = g() % pool.v.size(); v = pool.v[k]; names.push_back(pool.Name(v, u64)); }
  std::vector<U> in(keys.begin(), keys.begin() + n);
  auto t = s->Enc(in, vals, NewPrg(g, rnd));
  c.add({{"e", "Put"}, {"vals", names}, {"rnd", rnd}});
  auto get = [&](std::vector<int> ask) {
    std::vector<U> k;
    for (int a : ask) k.push_back(keys[a - 1]);
    auto o = s->Dec(k, t);
    json got = json::array();
    for (U x : o) got.push_back(pool.Name(x, u64));
    c.add({{"e", "Get"}, {"keys", ask}, {"got", got}});
  };
  std::vector<int> all(n);
  for (size_t i = 0; i < n; ++i) all[i] = i + 1;
  get(all);
  // in another order, some twice, with keys that are not there
  std::vector<int> some;
  for (int k = R(g, 1, 2 * (int)n + 5); k > 0; --k) some.push_back(g() % 5 ? R(g, 1, n) : R(g, 1, n + 40));
  get(some);
  get({(int)R(g, 1, n)});
  if (!rnd) return;
  auto t2 = s->Enc(in, vals, NewPrg(g, true));
  std::vector<U> out(keys.begin() + n, keys.end());
  auto a = s->Dec(out, t), b = s->Dec(out, t2);
  long alike = 0, same = 0, zeros = 0;
  for (size_t i = 0; i < out.size(); ++i) alike += a[i] == b[i];
  for (size_t i = 0; i < t.size(); ++i) { same += t[i] == t2[i]; zeros += t[i] == 0; zeros += t2[i] == 0; }
  c.add({{"e", "Again"}, {"alike", alike}, {"same", same}, {"zeros", zeros}});
}
static void ManyCase(Case& c, Rng& g, int stores) {
  Pool pool(g, 9);
  json put = json::array(), got = json::array();
  for (int q = 0; q < stores; ++q) {
    size_t n = R(g, 2, 24);
    bool bins = g() % 4 == 0;
    std::shared_ptr<Store> s;
    bool u64 = false;
    if (bins) s = std::make_shared<Bins>(n, 8, 3, g() % 3 == 0, Rand128(g), 1, 1, false);
    else { bool b = g() % 3 == 0; u64 = b && g() % 2; s = std::make_shared<One<uint32_t>>(n, g() % 4 ? 3 : 4, b, u64, Rand128(g)); }
    auto keys = RandKeys(g, n);
    std::vector<U> vals(n);
    for (auto& v : vals) v = pool.v[g() % pool.v.size()];
    auto t = s->Enc(keys, vals, NewPrg(g, g() % 3));
    auto o = s->Dec(keys, t);
    for (size_t i = 0; i < n; ++i) { put.push_back(pool.Name(vals[i], u64)); got.push_back(pool.Name(o[i], u64)); }
  }
  c.add({{"e", "Many"}, {"put", put}, {"got", got}});
}
static void BigCase(Case& c, Rng& g, size_t n) {
  Bins s(n, g() % 2 ? 1 << 14 : n / R(g, 2, 30), 3, false, Rand128(g), R(g, 2, 8), R(g, 2, 8), false);
  auto keys = RandKeys(g, n);
  std::vector<U> vals(n);
  for (auto& v : vals) v = Rand128(g);
  auto t = s.Enc(keys, vals, NewPrg(g, g() % 2));
  auto o = s.Dec(keys, t);
  long right = 0;
  for (size_t i = 0; i < n; ++i) right += o[i] == vals[i];
  c.add({{"e", "Big"}, {"n", n}, {"right", right}});
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 15 : 1;
  auto many = [&](const char* what, int n, std::function<void(Case&, Rng&, int)> f) {
    for (int i = 0; i < n * mult; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); f(c, g, i); });
  };
  many("one", 400, [&](Case& c, Rng& g, int i) { OkvsCase(c, g, false, i % 2, i % 10 ? 150 : 1500); });
  many("bins", 400, [&](Case& c, Rng& g, int i) { OkvsCase(c, g, true, i % 2, i % 10 ? 200 : 3000); });
  many("many", 256, [&](Case& c, Rng& g, int) { ManyCase(c, g, 800); });
  many("big", 8, [&](Case& c, Rng& g, int i) { BigCase(c, g, i % 2 ? 70000 : 20000); });
  run.finish();
}
