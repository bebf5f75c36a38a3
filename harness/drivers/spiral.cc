// Private look-up with an encrypted index (Spiral).
#include "mp.h"
#include <fcntl.h>
#include <unistd.h>
#include <numeric>
#include "psi/algorithm/pir_interface/index_pir.h"
#include "psi/algorithm/pir_interface/pir_db.h"
#include "psi/algorithm/spiral/params.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/spiral_server.h"
#include "psi/algorithm/spiral/util.h"
using namespace psi::spiral;
using psi::pir::RawDatabase;
using Row = std::vector<uint8_t>;
using Rows = std::vector<Row>;
static int Hash(const Row& r) { return (int)(std::hash<std::string_view>()({(const char*)r.data(), r.size()}) & 0x3fffffff); }
static json Hashes(const Rows& d) { json j = json::array(); for (auto& r : d) j.push_back(Hash(r)); return j; }
static Rows Fill(Rng& g, size_t rows, size_t bytes) {
  Rows d(rows, Row(bytes));
  int kind = g() % 6;   // any bytes, mostly; all ones; all zero; same rows in places
  for (auto& r : d) for (auto& b : r) b = kind == 4 ? 255 : kind == 5 ? (g() % 8 ? 0 : 128) : g();
  return d;
}
struct Kind { size_t poly, ptmod, t; };
static Params Make(const Kind& k) { return Params(k.poly, {268369921, 249561089}, 6.4, PolyMatrixParams(2, k.ptmod, 21, 4, 8, 8, k.t), QueryParams(9, 6, 1)); }
static int Lg(size_t v) { int r = 0; while (v >>= 1) ++r; return r; }
static json Basic(const Kind& k) { return {{"n", 2}, {"poly", k.poly}, {"logpoly", Lg(k.poly)}, {"logp", Lg(k.ptmod)}}; }
// p made fit for the database; ok tells whether a shape was found
static bool Fit(Case& c, Params& p, const Kind& k, size_t rows, size_t bytes) {
  json e = {{"e", "Shape"}, {"P", Basic(k)}, {"rows", rows}, {"bytes", bytes}, {"t", k.t}};
  bool ok = true;
  try {
    size_t pts = p.UpdateByDatabaseInfo(DatabaseMetaInfo(rows, bytes));
    Params q = Make(k);
    q.UpdateByDatabaseInfo(DatabaseMetaInfo(rows, bytes));
    e["pts"] = pts; e["v1"] = p.DbDim1(); e["v2"] = p.DbDim2(); e["tn"] = p.TGsw(); e["same"] = p == q;
  } catch (const std::exception&) { ok = false; }
  e["ok"] = ok;
  c.add(e);
  return ok;
}
static size_t Room(const Kind& k) { return 4 * k.poly * Lg(k.ptmod) / 8; }
static size_t PerPt(const Kind& k, size_t bytes) { size_t e = std::min(bytes, Room(k)), co = (8 * e + Lg(k.ptmod) - 1) / Lg(k.ptmod); return std::max<size_t>(1, 4 * k.poly / co); }
static void Ask(Case& c, const SpiralClient& cl, const psi::pir::IndexPirServer& sv, const yacl::Buffer& pks, size_t x) {
  json e = {{"e", "Ask"}, {"x", x}};
  try {
    auto q = cl.GenerateIndexQuery(x);
    auto got = cl.DecodeIndexResponse(sv.Response(q, pks), x);
    e["ok"] = true; e["got"] = Hash(got); e["len"] = got.size();
  } catch (const std::exception&) { e["ok"] = false; }
  c.add(e);
}
static size_t Somewhere(Rng& g, size_t rows, size_t per) {
  switch (g() % 6) {
    case 0: return 0;
    case 1: return rows - 1;
    case 2: return std::min(rows - 1, per);
    case 3: return std::min(rows - 1, per - 1);
    default: return g() % rows;
  }
}
// every kind of size, questions everywhere
static void Right(Case& c, Rng& g, int i) {
  Kind k{g() % 8 ? 512u : g() % 2 ? 1024u : 2048u, g() % 3 ? 256u : std::vector<size_t>{16, 64, 128, 512, 32}[g() % 5], g() % 4 ? 6u : (size_t)R(g, 4, 8)};
  size_t bytes = 1, rows = 1;
  switch (g() % 7) {
    case 0: bytes = R(g, 1, 40); break;
    case 1: bytes = Room(k) - g() % 3; break;
    case 2: bytes = Room(k) + 1 + g() % 3; break;
    case 3: bytes = Room(k) * R(g, 1, 3) + g() % 2 * R(g, 1, 300); break;
    case 4: bytes = Room(k) / R(g, 2, 5) + g() % 2; break;
    default: bytes = R(g, 1, 900);
  }
  size_t per = PerPt(k, bytes), pts = std::vector<int>{1, R(g, 1, 4), R(g, 5, 8), R(g, 9, 16), R(g, 17, 32), R(g, 33, 70)}[i % 6];
  if (g() % 24 == 0) pts = R(g, 70, 260);
  if (k.poly > 512) pts = std::min<size_t>(pts, 20);
  rows = std::max<size_t>(1, g() % 2 ? pts * per - g() % 2 : (pts - 1) * per + 1 + g() % per);
  Params p = Make(k);
  if (g() % 3 == 0) Fit(c, p, k, g() % 2 ? 1 : R(g, 1, 4000), R(g, 1, 3000));
  if (!Fit(c, p, k, rows, bytes)) return;
  Rows d = Fill(g, rows, bytes);
  DatabaseMetaInfo info(rows, bytes);
  SpiralServer sv(p, info);
  sv.GenerateFromRawDataAndReorient(RawDatabase(d));
  c.add({{"e", "Gen"}, {"k", "look"}, {"ok", true}, {"rows", Hashes(d)}, {"bytes", bytes}});
  std::unique_ptr<SpiralClient> cl;
  yacl::Buffer pks;
  auto fresh = [&] { cl = std::make_unique<SpiralClient>(p, info); pks = cl->GeneratePksBuffer(); };
  fresh();
  for (int a = 0; a < 4; ++a) {
    if (a == 2 && g() % 3 == 0) fresh();
    Ask(c, *cl, sv, pks, Somewhere(g, rows, per));
  }
  if (g() % 3 == 0) {
    // without serialization, and as strings
    size_t x = Somewhere(g, rows, per);
    auto got = cl->DecodeResponse(sv.ProcessQuery(cl->GenQuery(x), cl->GenPublicKeys()), x);
    c.add({{"e", "Ask"}, {"x", x}, {"ok", true}, {"got", Hash(got)}, {"len", got.size()}});
    x = Somewhere(g, rows, per);
    got = cl->DecodeIndexResponse(sv.Response(cl->GenerateIndexQueryStr(x), cl->GeneratePksString()), x);
    c.add({{"e", "Ask"}, {"x", x}, {"ok", true}, {"got", Hash(got)}, {"len", got.size()}});
  }
  for (size_t x : {rows, rows + 1 + g() % 1000}) if (g() % 2) Ask(c, *cl, sv, pks, x);
}
// sizes only
static void Shapes(Case& c, Rng& g, int) {
  Kind k{512u << g() % 3, std::vector<size_t>{256, 256, 16, 128, 512}[g() % 5], (size_t)R(g, 4, 8)};
  Params p = Make(k);
  for (int a = 0; a < 30; ++a) {
    size_t bytes = g() % 3 ? R(g, 1, 500) : g() % 2 ? R(g, 1, 3) * Room(k) + R(g, -2, 2) : R(g, 1, 60000), per = PerPt(k, bytes);
    size_t pts = g() % 2 ? R(g, 1, 40) : std::min<size_t>(1024, (1u << R(g, 0, 10)) + g() % 3);
    Fit(c, p, k, std::max<int64_t>(1, (int64_t)(pts * per) - (int64_t)(g() % per)), bytes);
    if (g() % 3 == 0) p = Make(k);
  }
}
// a server's life: its databases, the files it leaves, the servers made of them
static void Life(Case& c, Rng& g, int i) {
  Kind k{2048, 256, 6};
  if (i % 2) k = {512, 256, 6};
  bool files = k.poly == 2048;   // a file is loaded with the default parameters
  size_t bytes = i % 3 ? R(g, 1, 900) : Room(k) + R(g, 1, 500), per = PerPt(k, bytes);
  size_t rows = std::max<size_t>(1, std::vector<size_t>{1, per, per + 1, 4 * per, 5 * per, 9 * per}[g() % (bytes > 2000 ? 6 : 4)] - g() % 2);
  size_t rows0 = rows, bytes0 = bytes;
  bool table = i % 4 >= 2;   // the database is a hash table, whose size the server learns from it
  if (table) { rows0 = R(g, 1, 3 * rows + 1); bytes0 = R(g, 1, 600); }
  Params p = Make(k), pc = Make(k);
  if (!Fit(c, p, k, rows0, bytes0) || !Fit(c, pc, k, rows, bytes)) return;
  auto sv = std::make_unique<SpiralServer>(p, DatabaseMetaInfo(rows0, bytes0));
  SpiralClient cl(pc, DatabaseMetaInfo(rows, bytes));
  auto pks = cl.GeneratePksBuffer();
  std::string path = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/spiral." + std::to_string(getpid());
  for (int a = 0; a < 7; ++a) {
    int what = g() % 8;
    if (a == 0) what = (int)(g() % 2);
    if (!files && what == 3) what = 0;
    json e;
    bool ok = true;
    if (what < 2) {
      bool plain = table || what == 1;
      Rows d = Fill(g, rows, bytes);
      e = {{"e", "Gen"}, {"k", plain ? "plain" : "look"}, {"rows", Hashes(d)}, {"bytes", bytes}};
      try {
        RawDatabase raw(d);
        if (table) sv->GenerateFromSimpleHashTable(raw);
        else if (plain) sv->GenerateFromRawData(raw);
        else sv->GenerateFromRawDataAndReorient(raw);
      } catch (const std::exception&) { ok = false; }
    } else if (what == 2) {
      e = {{"e", "Dump"}};
      try { std::ofstream o(path + ".new", std::ios::binary | std::ios::trunc); sv->Dump(o); o.close(); rename((path + ".new").c_str(), path.c_str()); } catch (const std::exception&) { ok = false; }
    } else if (what == 3) {
      e = {{"e", "Load"}};
      int fd = open(path.c_str(), O_RDONLY);
      if (fd < 0) continue;
      try { google::protobuf::io::FileInputStream in(fd); auto s2 = SpiralServer::Load(in); sv = std::move(s2); } catch (const std::exception&) { ok = false; }
      close(fd);
    } else if (what == 4) {
      // rows of another length, or too few of them
      Rows d = Fill(g, g() % 2 ? rows : rows + 1, bytes);
      if (d.size() == rows) for (auto& r : d) r.pop_back();
      if (table || d[0].empty() || (d.size() == rows && bytes > Room(k))) continue;   // a row cut in pieces is filled up with zeros
      e = {{"e", "Gen"}, {"k", "wrong"}, {"rows", Hashes(d)}, {"bytes", d[0].size()}};
      auto s2 = std::make_unique<SpiralServer>(p, DatabaseMetaInfo(rows0, bytes0));
      try { if (g() % 2) s2->GenerateFromRawData(RawDatabase(d)); else s2->GenerateFromRawDataAndReorient(RawDatabase(d)); } catch (const std::exception&) { ok = false; }
    } else {
      Ask(c, cl, *sv, pks, Somewhere(g, rows, per));
      continue;
    }
    e["ok"] = ok;
    c.add(e);
  }
  unlink(path.c_str());
  unlink((path + ".new").c_str());
}
// many clients, each with keys of its own
static void Keys(Case& c, Rng& g, int n) {
  Kind k{512, 256, 6};
  Params p = Make(k);
  if (!Fit(c, p, k, 10, 10)) return;
  DatabaseMetaInfo info(10, 10);
  std::vector<std::vector<size_t>> h(8);
  std::vector<std::thread> th;
  auto hash = [](absl::Span<const uint64_t> s) { return std::hash<std::string_view>()({(const char*)s.data(), s.size() * 8}); };
  for (int t = 0; t < 8; ++t) th.emplace_back([&, t] {
    for (int i = 0; i < n / 8; ++i) {
      SpiralClient cl(p, info);
      const SpiralClient& q = cl;
      size_t len = p.PolyLen();
      h[t].push_back(hash(q.GetSkRegev().Data()));
      // each polynomial of the second key too
      for (size_t r = 0; r < 2; ++r) h[t].push_back(hash(q.GetSkGsw().Data().subspan(r * len, len)));
    }
  });
  for (auto& t : th) t.join();
  std::vector<size_t> all;
  for (auto& v : h) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end());
  size_t total = all.size();
  all.erase(std::unique(all.begin(), all.end()), all.end());
  // one key in full: small numbers, both signs, in no order
  SpiralClient cl(p, info);
  json key = json::array();
  for (uint64_t v : static_cast<const SpiralClient&>(cl).GetSkRegev().Data()) key.push_back(v == 0 ? 0 : v == 1 ? 1 : v == p.Modulus() - 1 ? -1 : 9);
  c.add({{"e", "Keys"}, {"n", total}, {"distinct", all.size()}, {"key", key}});
}
// what the server sees of a question: two of them for one row differ by fresh noise only
struct Stat {
  int64_t n = 0, sum = 0, sq = 0, max = 0;
  void add(int64_t d) { ++n; sum += d; sq += d > 1000 || d < -1000 ? 1000000 : d * d; max = std::max(max, std::min<int64_t>(d < 0 ? -d : d, 1000000)); }
  json j(const char* what) const { return {{"e", "Noise"}, {"what", what}, {"n", n}, {"sum", std::max<int64_t>(-1000000, std::min<int64_t>(sum, 1000000))}, {"sq", std::min<int64_t>(sq, 2000000000)}, {"max", max}}; }
};
static void Diff(const Params& p, const PolyMatrixRaw& sk, const PolyMatrixNtt& a, const PolyMatrixNtt& b, Stat& s) {
  auto skn = ToNtt(p, sk);
  auto x = FromNtt(p, Multiply(p, skn, a)), y = FromNtt(p, Multiply(p, skn, b));
  uint64_t q = p.Modulus();
  for (size_t i = 0; i < x.Data().size(); ++i) {
    uint64_t d = (x.Data()[i] % q + q - y.Data()[i] % q) % q;
    s.add(d > q / 2 ? -(int64_t)std::min<uint64_t>(q - d, 1000000) : (int64_t)std::min<uint64_t>(d, 1000000));
  }
}
static void Hidden(Case& c, Rng& g, int) {
  Kind k{512, 256, 6};
  size_t bytes = R(g, 1, 200), rows = R(g, 1, 300);
  Params p = Make(k);
  if (!Fit(c, p, k, rows, bytes)) return;
  DatabaseMetaInfo info(rows, bytes);
  SpiralClient cl(p, info);
  uint64_t q = p.Modulus();
  Stat s;
  std::vector<int64_t> cnt(16);
  int64_t total = 0, same = 0;
  auto count = [&](absl::Span<const uint64_t> v) { for (auto x : v) { ++cnt[(size_t)((unsigned __int128)(x % q) * 16 / q)]; ++total; } };
  std::set<std::pair<uint64_t, uint64_t>> seeds;
  std::set<size_t> sizes;
  int asks = 30;
  for (int i = 0; i < asks; ++i) {
    size_t x = g() % rows;
    auto a = cl.GenQuery(x), b = cl.GenQuery(x);
    Diff(p, cl.GetSkRegevFull(), ToNtt(p, a.ct_), ToNtt(p, b.ct_), s);
    for (auto* m : {&a, &b}) { seeds.insert({(uint64_t)(m->seed_ >> 64), (uint64_t)m->seed_}); sizes.insert(m->ct_.Rows() * 100 + m->ct_.Cols()); }
    for (size_t t = 0; t < a.ct_.Data().size(); ++t) same += a.ct_.Data()[t] == b.ct_.Data()[t];
    count(a.ct_.Data());
  }
  c.add(s.j("question"));
  // the noise is not to be had from the seed that travels with the question
  auto noise = [&](const uint128_t& seed, bool later) {
    yacl::crypto::Prg<uint64_t> r(seed);
    if (later) PolyMatrixRaw::RandomPrg(p, 1, 1, r);
    return Noise(p, 1, 1, DiscreteGaussian(p.NoiseWidth()), r);
  };
  for (bool later : {false, true}) {
    size_t x = g() % rows, hit = 0;
    auto a = cl.GenQuery(x), b = cl.GenQuery(x);
    auto na = noise(a.seed_, later), nb = noise(b.seed_, later);
    auto skn = ToNtt(p, cl.GetSkRegevFull());
    auto u = FromNtt(p, Multiply(p, skn, ToNtt(p, a.ct_))), v = FromNtt(p, Multiply(p, skn, ToNtt(p, b.ct_)));
    for (size_t t = 0; t < u.Data().size(); ++t) hit += (u.Data()[t] + nb.Data()[t]) % q == (v.Data()[t] + na.Data()[t]) % q;
    c.add({{"e", "Guess"}, {"n", u.Data().size()}, {"hit", hit}});
  }
  c.add({{"e", "Fresh"}, {"asks", 2 * asks}, {"seeds", seeds.size()}, {"same", same}, {"sizes", sizes.size()}});
  c.add({{"e", "Even"}, {"n", total}, {"cnt", cnt}});
  auto u = cl.GenPublicKeys(), v = cl.GenPublicKeys();
  auto cmp = [&](const char* what, const PolyMatrixRaw& sk, std::vector<PolyMatrixNtt>& a, std::vector<PolyMatrixNtt>& b) {
    Stat st;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) Diff(p, sk, a[i], b[i], st);
    c.add(st.j(what));
  };
  cmp("pack", cl.GetSkGswFull(), u.v_packing_, v.v_packing_);
  cmp("left", cl.GetSkRegevFull(), u.v_expansion_left_, v.v_expansion_left_);
  cmp("right", cl.GetSkRegevFull(), u.v_expansion_right_, v.v_expansion_right_);
  cmp("conv", cl.GetSkRegevFull(), u.v_conversion_, v.v_conversion_);
  // nothing of the keys sent is sent again
  std::set<uint64_t> firsts;
  size_t polys = 0;
  for (auto* ks : {&u, &v}) for (auto* m : {&ks->v_packing_, &ks->v_expansion_left_, &ks->v_expansion_right_, &ks->v_conversion_}) for (auto& e : *m) for (size_t col = 0; col < e.Cols(); ++col) { auto po = static_cast<const PolyMatrixNtt&>(e).Poly(0, col); firsts.insert(std::hash<std::string_view>()({(const char*)po.data(), po.size() * 8})); ++polys; }
  c.add({{"e", "Fresh"}, {"asks", polys}, {"seeds", firsts.size()}, {"same", 0}, {"sizes", 1}});
}
// rows cut into pieces and put together again
static void Cut(Case& c, Rng& g, int) {
  for (int a = 0; a < 20; ++a) {
    size_t bytes = R(g, 1, 60), len = g() % 4 ? R(g, 1, 20) : R(g, 1, 70), rows = R(g, 1, 5);
    Rows d = Fill(g, rows, bytes);
    auto parts = RawDatabase(d).Partition(len);
    json lens = json::array(), content = json::array();
    size_t x = g() % rows;
    Rows mine;
    for (auto& q : parts) { lens.push_back(q.RowByteLen()); mine.push_back(q.At(x)); for (auto b : q.At(x)) content.push_back(b); }
    json row = json::array(), back = json::array();
    for (auto b : d[x]) row.push_back(b);
    for (auto b : RawDatabase::Combine(mine, bytes)) back.push_back(b);
    c.add({{"e", "Cut"}, {"len", len}, {"row", row}, {"lens", lens}, {"content", content}, {"back", back}});
  }
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 8 : 1;
  bool only = a.mode == "look";
  auto many = [&](const char* what, int n, std::function<void(Case&, Rng&, int)> f) {
    for (int i = 0; i < n; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); c.in["k"] = what; f(c, g, i); });
  };
  many("right", (only ? 48 : 120) * mult, Right);
  if (only) { run.finish(); return 0; }
  many("shapes", 60 * mult, Shapes);
  many("life", 80 * mult, Life);
  many("cut", 10 * mult, Cut);
  many("hidden", 16 * mult, Hidden);
  many("keys", a.thorough ? 4 : 1, [&](Case& c, Rng& g, int) { Keys(c, g, a.thorough ? 1200000 : 400000); });
  run.finish();
}
