// Private look-up with hints (Piano): answers and questions of real clients.
#include "mp.h"
#include "experiment/pir/piano/client.h"
#include "experiment/pir/piano/server.h"
using namespace pir::piano;
struct Db {
  std::vector<std::vector<uint8_t>> pool;
  std::vector<int> name;   // of every entry: position in the pool
  std::vector<uint8_t> raw;
  size_t size;
  Db(Rng& g, size_t n, size_t size_) : size(size_) {
    std::set<std::vector<uint8_t>> s;
    size_t want = g() % 3 == 0 ? 5 : n;
    for (int t = 0; s.size() < want && t < 3 * (int)want; ++t) { std::vector<uint8_t> v(size); for (auto& b : v) b = g(); s.insert(v); }
    if (g() % 2) s.insert(std::vector<uint8_t>(size, 0));
    pool.assign(s.begin(), s.end());
    std::shuffle(pool.begin(), pool.end(), g);
    for (size_t i = 0; i < n; ++i) { int k = g() % pool.size(); name.push_back(k + 1); raw.insert(raw.end(), pool[k].begin(), pool[k].end()); }
  }
  int Name(const std::vector<uint8_t>& v) const { for (size_t i = 0; i < pool.size(); ++i) if (pool[i] == v) return i + 1; return 0; }
};
struct Session {
  Db db;
  std::unique_ptr<QueryServiceServer> s;
  std::unique_ptr<QueryServiceClient> c;
  size_t n, chunk, sets;
  Session(Rng& g, size_t n_, size_t size, int threads) : db(g, n_, size), n(n_) {
    auto raw = db.raw;
    s = std::make_unique<QueryServiceServer>(raw, n, size);
    c = std::make_unique<QueryServiceClient>(n, threads, size);
    std::tie(chunk, sets) = GenChunkParams(n);
    std::vector<int> order(c->GetChunkNumber());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    if (g() % 2) std::shuffle(order.begin(), order.end(), g);
    for (int i : order) c->PreprocessDBChunk(s->GetDBChunk(i));
  }
  json Open() { return {{"e", "Open"}, {"n", n}, {"k", chunk}, {"c", sets}, {"sets", c->GetChunkNumber()}, {"db", db.name}, {"most", std::min<uint64_t>(c->GetTotalQueryNumber(), 1000000)}}; }
  json Ask(size_t x, bool lost) {
    auto q = c->GenerateIndexQuery(x);
    json m = json::array();
    for (auto i : DeserializeSetParityQuery(q)) m.push_back(i);
    json e = {{"e", lost ? "Lost" : "Ask"}, {"x", x}, {"msg", m}};
    if (lost) return e;
    auto r = c->RecoverIndexReply(s->GenerateIndexReply(q));
    e["got"] = db.Name(r.GetData());
    return e;
  }
};
// what is asked for: anywhere, one chunk, the same again and again, all in turn
static size_t Pick(Rng& g, Session& s, int kind, int i, size_t last) {
  if (kind == 0) return g() % s.n;
  if (kind == 1) { size_t c = s.chunk * (s.n / s.chunk / 2); return c + g() % std::min(s.chunk, s.n - c); }
  if (kind == 2) return i && g() % 3 ? last : g() % s.n;
  return i % s.n;
}
static void Right(Case& c, Rng& g, size_t n, int asks) {
  Session s(g, n, R(g, 1, g() % 2 ? 40 : 3), R(g, 0, 8));
  if (asks == 0) asks = s.c->GetTotalQueryNumber();
  c.add(s.Open());
  int kind = g() % 4;
  bool lossy = g() % 3 == 0;
  size_t last = 0;
  for (int i = 0; i < asks; ++i) { last = Pick(g, s, kind, i, last); c.add(s.Ask(last, lossy && g() % 4 == 0)); }
}
static void Seen(Case& c, Rng& g, int sessions, int asks) {
  size_t n = R(g, 2, 40);
  int kind = g() % 4;
  for (int k = 0; k < sessions; ++k) {
    Session s(g, n, 2, 1);
    c.add(s.Open());
    size_t last = 0;
    for (int i = 0; i < asks; ++i) { last = Pick(g, s, kind, i, last); c.add(s.Ask(last, false)); }
  }
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 10 : 1;
  auto many = [&](const char* what, int n, std::function<void(Case&, Rng&, int)> f) {
    for (int i = 0; i < n * mult; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); f(c, g, i); });
  };
  many("right", 64, [&](Case& c, Rng& g, int i) { c.in["tally"] = false; Right(c, g, i < 24 ? i + 1 : R(g, 25, i % 8 ? 300 : 1500), i % 16 == 7 ? 0 : R(g, 20, 120)); });
  many("seen", 32, [&](Case& c, Rng& g, int) { c.in["tally"] = true; Seen(c, g, 40, 12); });
  run.finish();
}
