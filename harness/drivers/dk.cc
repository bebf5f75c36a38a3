// Private look-up of keys with several rows each, paid for by the row (DkPir).
#include "mp.h"
#include "procnet.h"
#include <filesystem>
#include <fstream>
#include "psi/algorithm/dkpir/common.h"
#include "psi/algorithm/dkpir/entry.h"
#include "psi/wrapper/apsi/receiver.h"
#include "psi/wrapper/apsi/sender.h"
#include "psi/wrapper/apsi/utils/common.h"
#include "psi/wrapper/apsi/utils/sender_db.h"
#include "yacl/crypto/rand/rand.h"
namespace fs = std::filesystem;
#include "ideal_apsi.h"
namespace psi::apsi_wrapper::cli { void print_timing_report(const apsi::util::Stopwatch&) {} }
using namespace psi::dkpir;
// ---- tables ----
struct Tab { std::vector<std::string> label; std::string key; std::vector<std::pair<int, std::vector<std::string>>> rows; };
struct Setup {
  Tab t; std::vector<std::string> name;   // name of key 1, 2, ..
  std::vector<int> ask; psi::CurveType curve = psi::CURVE_FOURQ; bool skip = false; int threads = 1; bool stream[2] = {true, true};
  std::string dir, params = "1 3"; bool quote = false;
};
static std::string Q(const std::string& f, bool always) {
  if (!always && f.find_first_of(",\"") == std::string::npos) return f;
  std::string r = "\""; for (char c : f) { if (c == '"') r += '"'; r += c; } return r + "\"";
}
static int H(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += std::to_string(x.size()) + ":" + x; return (int)(std::hash<std::string>()(s) & 0x3fffffff); }
static std::vector<std::vector<std::string>> ReadCsv(const std::string& f, bool& there) {
  std::ifstream i(f, std::ios::binary); there = i.good();
  std::string s((std::istreambuf_iterator<char>(i)), {});
  std::vector<std::vector<std::string>> r; std::vector<std::string> row; std::string cur; bool in = false, any = false;
  for (size_t k = 0; k < s.size(); ++k) {
    char ch = s[k];
    if (in) { if (ch == '"') { if (k + 1 < s.size() && s[k + 1] == '"') { cur += '"'; ++k; } else in = false; } else cur += ch; }
    else if (ch == '"' && cur.empty()) { in = true; any = true; }
    else if (ch == ',') { row.push_back(cur); cur.clear(); any = true; }
    else if (ch == '\n') { if (any || !cur.empty()) { row.push_back(cur); r.push_back(row); } row.clear(); cur.clear(); any = false; }
    else cur += ch;
  }
  if (any || !cur.empty()) { row.push_back(cur); r.push_back(row); }
  return r;
}
static void WriteTables(const Setup& s, Rng& g) {
  {
    // columns in any order, with one nobody asked for
    std::vector<std::string> col = s.t.label; col.push_back(s.t.key); col.push_back("other");
    std::vector<int> ord(col.size()); std::iota(ord.begin(), ord.end(), 0); std::shuffle(ord.begin(), ord.end(), g);
    std::ofstream o(s.dir + "/db.csv");
    for (size_t k = 0; k < ord.size(); ++k) o << (k ? "," : "") << Q(col[ord[k]], false); o << "\n";
    for (auto& [id, v] : s.t.rows) {
      auto row = v; row.push_back(s.name[id - 1]); row.push_back("x" + std::to_string(g() % 9));
      for (size_t k = 0; k < ord.size(); ++k) o << (k ? "," : "") << Q(row[ord[k]], s.quote); o << "\n";
    }
    std::ofstream p(s.dir + "/p.json"); p << s.params;
  }
  std::ofstream q(s.dir + "/q.csv");
  bool two = g() % 3 == 0;
  q << (two ? "rest," : "") << s.t.key << "\n";
  for (int id : s.ask) q << (two ? "z," : "") << Q(s.name[id - 1], s.quote) << "\n";
}
static DkPirSenderOptions SO(const Setup& s) {
  DkPirSenderOptions o;
  o.threads = s.threads; o.streaming_result = s.stream[0]; o.skip_count_check = s.skip; o.curve_type = s.curve; o.silent = true;
  o.params_file = s.dir + "/p.json"; o.source_file = s.dir + "/db.csv"; o.value_sdb_out_file = s.dir + "/v.db"; o.count_sdb_out_file = s.dir + "/c.db";
  o.secret_key_file = s.dir + "/sk"; o.result_file = s.dir + "/count.csv"; o.tmp_folder = s.dir + "/tmp"; o.key = s.t.key; o.labels = s.t.label;
  return o;
}
static DkPirReceiverOptions RO(const Setup& s) {
  DkPirReceiverOptions o;
  o.threads = s.threads; o.streaming_result = s.stream[1]; o.skip_count_check = s.skip; o.curve_type = s.curve; o.silent = true;
  o.params_file = s.dir + "/p.json"; o.query_file = s.dir + "/q.csv"; o.result_file = s.dir + "/out.csv"; o.tmp_folder = s.dir + "/tmpr"; o.key = s.t.key; o.labels = s.t.label;
  return o;
}
static json Files(const Setup& s) {
  int n = 0;
  for (auto d : {"/tmp", "/tmpr"}) if (fs::exists(s.dir + d)) for (auto& e : fs::directory_iterator(s.dir + d)) { (void)e; ++n; }
  return n;
}
static void Off(Case& c, const Setup& s, const DkPirSenderOptions& o, bool good) {
  json e = {{"e", "Off"}, {"good", good}};
  auto nr = verif::RunNet({{[&](std::shared_ptr<yacl::link::Context>) { return json(SenderOffline(o)); }}}, {.timeout_ms = 30000});
  e["ok"] = nr.res[0]["st"] == "ok" && nr.res[0]["v"] == 0;
  e["left"] = Files(s);
  c.add(e);
}
static json Rows(const Setup& s, const std::string& f) {
  bool there; auto t = ReadCsv(f, there);
  json rows = json::array(), hdr = json::array();
  if (!t.empty()) for (auto& x : t[0]) hdr.push_back(x);
  for (size_t i = 1; i < t.size(); ++i) {
    auto it = t[i].empty() ? s.name.end() : std::find(s.name.begin(), s.name.end(), t[i][0]);
    rows.push_back({it == s.name.end() ? 0 : (int)(it - s.name.begin()) + 1, H({t[i].begin() + 1, t[i].end()})});
  }
  return {{"there", there}, {"hdr", hdr}, {"rows", rows}};
}
struct Cheat { std::string kind = "none"; uint64_t claim = 0; };
// what a message is, told by who sent it and what it looks like
template <class F> static std::string What(const F& f) {
  auto& b = f.bytes; uint64_t w[2] = {0, 0};
  if (b.size() >= 16) memcpy(w, b.data(), 16);
  if (f.src == 1) return b.size() < 16 ? "claim" : w[0] == 1 && w[1] == 2 ? "ask" : w[0] == 1 && w[1] == 3 ? "query" : "sum";
  return b.size() == 16 ? "seed" : b.size() == 8 ? "ctr" : w[0] == 1 && w[1] == 2 ? "answer" : w[0] == 1 && w[1] == 3 ? "parts" : w[0] < 64 && w[1] < 2 ? "part" : "other";
}
static json Order(const verif::NetResult& nr) { json o = json::array(); for (auto& f : nr.log) o.push_back(What(f)); return o; }
// which question each answer of the oblivious function belongs to, seen with the server's own key (0: to none)
static json Perm(const Setup& s, const verif::NetResult& nr) {
  json p = json::array();
  std::ifstream i(s.dir + "/v.db", std::ios::binary); std::string all((std::istreambuf_iterator<char>(i)), {});
  if (all.size() < 32) return p;
  mpz_class k = apsi::oprf::In((const unsigned char*)all.data() + all.size() - 32, 32);
  std::string q, a;
  for (auto& f : nr.log) {
    std::istringstream ss(f.bytes); apsi::network::SenderOperationHeader h;
    if (What(f) == "ask" && q.empty()) { h.load(ss); apsi::network::SenderOperationOPRF o; o.load(ss, nullptr); q.assign(o.data.begin(), o.data.end()); }
    if (What(f) == "answer" && a.empty()) { h.load(ss); apsi::network::SenderOperationResponseOPRF o; o.load(ss); a.assign(o.data.begin(), o.data.end()); }
  }
  for (size_t j = 0; j + 32 <= a.size(); j += 32) {
    int at = 0;
    for (size_t x = 0; x + 32 <= q.size(); x += 32) {
      mpz_class v = apsi::oprf::In((const unsigned char*)q.data() + x, 32), w; mpz_powm(w.get_mpz_t(), v.get_mpz_t(), k.get_mpz_t(), apsi::oprf::P().get_mpz_t());
      if (w == apsi::oprf::In((const unsigned char*)a.data() + j, 32)) at = (int)(x / 32) + 1;
    }
    p.push_back(at);
  }
  return p;
}
static std::string Questions(const verif::NetResult& nr) { for (auto& f : nr.log) if (What(f) == "ask") return f.bytes; return ""; }
static std::string Seed(const verif::NetResult& nr) { std::string s; for (auto& f : nr.log) { auto w = What(f); if (w == "seed" || w == "ctr") s += f.bytes; } return s; }
// a client that follows the protocol but for what it adds up and what it says
static json Rogue(const DkPirReceiverOptions& o, std::shared_ptr<yacl::link::Context> lctx, const Cheat& ch) {
  auto params = psi::apsi_wrapper::BuildPsiParams(o.params_file);
  DkPirReceiver r(*params, o);
  fs::create_directories(o.tmp_folder);
  auto items = r.ExtractItems(o.tmp_folder + "/rogue.csv");
  lctx->ConnectToMesh();
  psi::apsi_wrapper::YaclChannel ch2(lctx);
  auto sr = r.CreateShuffledOPRFReceiver(items);
  ch2.send(r.CreateOPRFRequest(sr));
  auto resp = r.ReceiveOPRFResponse(ch2);
  auto [h, lk] = r.ExtractHashes(resp, sr);
  ch2.send(r.CreateQueryRequest(h));
  auto cnt = r.ReceiveQueryResponse(lk, ch2);
  json v; std::set<std::string> c1; int found = 0;
  for (auto& m : cnt) if (m) { ++found; heu::lib::algorithms::elgamal::Ciphertext t; auto s = m.label.to_string(); c1.insert(s); }
  v["found"] = found; v["cts"] = c1.size();
  if (ch.kind == "drop") for (auto& m : cnt) if (m) { m.found = false; break; }
  if (ch.kind == "silent") { try { r.ReceiveQueryResponse(lk, ch2); v["data"] = true; } catch (const std::exception&) { v["data"] = false; } return v; }
  auto ct = r.ComputeRowCountCt(cnt);
  if (ch.kind == "twice") { auto more = r.ComputeRowCountCt(cnt); heu::lib::algorithms::elgamal::PublicKey pk(ct.ec, ct.ec->MulBase(yacl::math::MPInt(5))); heu::lib::algorithms::elgamal::Evaluator ev(pk); ev.AddInplace(&ct, more); }
  lctx->SendAsync(lctx->NextRank(), ct.Serialize(true), "Send ct of total row count");
  auto data = r.ReceiveQueryResponse(lk, ch2);
  v["data"] = true;
  uint64_t n = r.ComputeRowCount(data), said = n;
  if (ch.kind == "drop") { said = 0; for (size_t i = 0, skip = 1; i < data.size(); ++i) if (data[i]) { if (skip) { skip = 0; continue; } std::vector<apsi::receiver::MatchRecord> one{data[i]}; said += r.ComputeRowCount(one); } }
  if (ch.kind == "twice") said = 2 * n;
  lctx->SendAsync(lctx->NextRank(), yacl::ByteContainerView(&said, 8), "Send total row count");
  uint128_t seed = 0; uint64_t ctr = 0;
  try { r.ReceiveShuffleSeed(lctx, seed, ctr); v["seed"] = true; } catch (const std::exception&) { v["seed"] = false; }
  return v;
}
static verif::NetResult On(Case& c, const Setup& s, const Cheat& ch, json more = json::object()) {
  auto so = SO(s); auto ro = RO(s);
  fs::remove(so.result_file); fs::remove(ro.result_file);
  fs::remove_all(s.dir + "/tmpr");
  verif::NetOpt no; no.timeout_ms = 40000; no.recv_timeout_ms = ch.kind == "silent" ? 1500 : 15000;
  if (ch.kind == "claim" || ch.kind == "short") no.tamper = [&](verif::Frame& f) {
    if (What(f) != "claim") return;
    if (ch.kind == "short") { f.bytes.resize(ch.claim); return; }
    f.bytes.assign((const char*)&ch.claim, 8);
  };
  bool rogue = ch.kind == "drop" || ch.kind == "twice" || ch.kind == "silent" || ch.kind == "look";
  auto nr = verif::RunNet({{[&](std::shared_ptr<yacl::link::Context> l) { return json(SenderOnline(so, l)); }},
                           {[&](std::shared_ptr<yacl::link::Context> l) { return rogue ? Rogue(ro, l, ch) : json(ReceiverOnline(ro, l)); }}}, no);
  json e = {{"e", "On"}, {"cheat", ch.kind}, {"skip", s.skip}, {"ask", s.ask}};
  auto st = [&](int i) { return nr.res[i]["st"] == "ok" ? (nr.res[i]["v"] == 0 ? "ok" : "no") : nr.res[i]["st"] == "err" ? "no" : nr.res[i]["st"].get<std::string>(); };
  e["s"] = st(0); e["r"] = rogue ? "rogue" : st(1);
  if (rogue) { json v = {{"failed", true}, {"seed", false}, {"data", false}, {"found", 0}, {"cts", 0}}; if (nr.res[1]["st"] == "ok") { v.update(nr.res[1]["v"]); v["failed"] = false; } e["v"] = v; }
  e["order"] = Order(nr); e["perm"] = Perm(s, nr);
  e["out"] = Rows(s, ro.result_file);
  bool there; auto t = ReadCsv(so.result_file, there);
  e["count"] = !there ? -1 : t.size() == 2 && t[0] == std::vector<std::string>{"count"} && t[1].size() == 1 && t[1][0].size() < 9 ? atoi(t[1][0].c_str()) : -2;
  e["left"] = Files(s);
  e.update(more);
  c.add(e);
  return nr;
}
// ---- cases ----
static std::string Text(Rng& g, int kind, bool label) {
  static const std::vector<std::string> odd = {"a,b", "\"q\"", "x\"y", ",", "NA", "null", " pad ", "0", "-1", "é漢", "key", "value", "a\tb", "'", "#c", "nan", "\"", "\",\""};
  if (kind == 0) return (label ? "v" : "k") + std::to_string(g() % 100000);
  if (g() % 2) return odd[g() % odd.size()] + (label ? "" : std::to_string(g() % 1000));
  std::string r; for (int n = R(g, 1, kind == 2 ? 300 : 12); n > 0; --n) r.push_back("abcXYZ019 -_,\"|;:"[g() % 17]);
  if (!label && r.find_first_not_of(' ') == std::string::npos) r = "z";
  return r;
}
static Setup Make(Rng& g, Case& c, const std::string& dir, bool miss) {
  Setup s; s.dir = dir; fs::create_directories(dir);
  int kinds = g() % 3, nk = R(g, 1, g() % 5 ? 6 : 20), nl = R(g, 1, 3);
  s.curve = g() % 2 ? psi::CURVE_FOURQ : psi::CURVE_SM2; s.threads = R(g, 1, 4); s.stream[0] = g() % 2; s.stream[1] = g() % 2; s.quote = g() % 2;
  s.params = std::to_string(R(g, 1, 3)) + " " + std::to_string(R(g, 1, 4));
  s.t.key = g() % 3 ? "id" : "the key";
  for (int i = 0; i < nl; ++i) s.t.label.push_back(g() % 4 ? "label" + std::to_string(i) : "l " + std::to_string(i));
  std::set<std::string> used;
  for (int i = 0; i < nk + 4; ++i) { std::string k; do k = Text(g, kinds, false); while (!used.insert(k).second); s.name.push_back(k); }
  for (int k = 1; k <= nk; ++k) {
    int n = g() % 4 ? R(g, 1, 4) : R(g, 1, 30);
    for (int i = 0; i < n; ++i) {
      std::vector<std::string> v;
      for (int x = 0; x < nl; ++x) v.push_back(x && g() % 6 == 0 ? "" : Text(g, kinds, true));
      s.t.rows.push_back({k, v});
    }
  }
  std::shuffle(s.t.rows.begin(), s.t.rows.end(), g);
  std::vector<int> ids(nk); std::iota(ids.begin(), ids.end(), 1); std::shuffle(ids.begin(), ids.end(), g);
  ids.resize(R(g, 1, nk));
  if (miss) { if (g() % 3 == 0) ids.clear(); for (int n = R(g, 1, 4), k = 0; k < n; ++k) ids.push_back(nk + 1 + k); std::shuffle(ids.begin(), ids.end(), g); }
  s.ask = ids;
  c.in["db"] = json::array();
  for (auto& [k, v] : s.t.rows) c.in["db"].push_back({k, H(v)});
  c.in["hdr"] = json::array({s.t.key}); for (auto& l : s.t.label) c.in["hdr"].push_back(l);
  return s;
}
static int Total(const Setup& s) { int n = 0; for (auto& r : s.t.rows) n += std::count(s.ask.begin(), s.ask.end(), r.first); return n; }
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 12 : 1;
  std::string base = a.out + ".dk." + std::to_string(getpid());
  auto with = [&](const std::string& key, int i, const std::function<void(Case&, Rng&, const std::string&)>& f) {
    run.run(key, [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u); fs::remove_all(base); fs::create_directories(base); f(c, g, base); fs::remove_all(base); });
  };
  if (a.mode == "look") {
    for (int i = 0; i < 800 * mult; ++i)
      with("look-" + std::to_string(i), i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, i % 3 == 2); s.skip = i % 2;
        setenv("VERIF_ARROW_BLOCK", g() % 2 ? "64" : "65536", 1);
        WriteTables(s, g);
        Off(c, s, SO(s), true);
        for (int k = R(g, 1, 2); k > 0; --k) {
          On(c, s, {});
          int nk = 0; for (auto& r : s.t.rows) nk = std::max(nk, r.first);
          std::vector<int> ids(nk); std::iota(ids.begin(), ids.end(), 1); std::shuffle(ids.begin(), ids.end(), g); ids.resize(R(g, 1, nk)); s.ask = ids;
          WriteTables(s, g);
        }
      });
  }
  if (a.mode == "pay") {
    for (int i = 0; i < 300 * mult; ++i)
      with("pay-" + std::to_string(i), 5000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, false); WriteTables(s, g);
        Off(c, s, SO(s), true);
        uint64_t n = Total(s);
        static const char* kinds[] = {"claim", "claim", "claim", "short", "drop", "twice", "silent", "look", "key", "mixed"};
        Cheat ch; ch.kind = kinds[i % 10];
        if (ch.kind == "claim") { std::vector<uint64_t> v = {n - 1, n + 1, 0, n + (1ull << 32), n + (1ull << 63), ~0ull, (uint64_t)s.ask.size(), n * 2}; do ch.claim = v[g() % v.size()]; while (ch.claim == n); }
        if (ch.kind == "short") ch.claim = std::vector<int>{0, 1, 4, 7}[g() % 4];
        if (ch.kind == "key") { auto how = g() % 3; if (how == 0) fs::remove(d + "/sk"); else fs::resize_file(d + "/sk", how == 1 ? 0 : fs::file_size(d + "/sk") / 2); }
        if (ch.kind == "mixed") {
          auto what = g() % 3; fs::path keep = what == 0 ? d + "/sk" : what == 1 ? d + "/v.db" : d + "/c.db";
          fs::copy_file(keep, d + "/kept"); Off(c, s, SO(s), true); fs::rename(d + "/kept", keep);
        }
        On(c, s, ch);
      });
    for (int i = 0; i < 32 * mult; ++i)
      with("bad-" + std::to_string(i), 7000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, false); s.skip = g() % 2; WriteTables(s, g);
        auto o = SO(s);
        switch (i % 8) {
          case 0: o.key = "nowhere"; break;
          case 1: o.labels.push_back("nowhere"); break;
          case 2: o.source_file = d + "/none.csv"; break;
          case 3: o.params_file = d + "/none.json"; break;
          case 4: o.tmp_folder = ""; break;
          case 5: o.labels.clear(); break;
          case 6: { std::ofstream f(o.source_file); f << s.t.key; for (auto& l : s.t.label) f << "," << l; f << "\n"; break; }
          case 7: o.value_sdb_out_file = d + "/none/v.db"; break;
        }
        Off(c, s, o, false);
      });
    // a question asked twice over is refused by the client itself; so is one without a table
    for (int i = 0; i < 24 * mult; ++i)
      with("twice-" + std::to_string(i), 8000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, false); s.skip = g() % 2; s.ask.push_back(s.ask[g() % s.ask.size()]); WriteTables(s, g);
        Off(c, s, SO(s), true);
        On(c, s, {"repeat"});
      });
  }
  if (a.mode == "hide") {
    // what a session shows is drawn anew every time
    for (int i = 0; i < 4 * mult; ++i)
      with("fresh-" + std::to_string(i), 9000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, false);
        while (s.ask.size() != 3) s = Make(g, c, d, false);
        s.stream[0] = true; WriteTables(s, g);
        Off(c, s, SO(s), true);
        std::set<std::string> q, sd; std::map<std::string, int> pm; int n = 60; std::set<size_t> size;
        int tied = 0;
        for (int k = 0; k < n; ++k) {
          Case tmp; auto nr = On(k ? tmp : c, s, {});
          auto qs = Questions(nr); size.insert(qs.size());
          std::string pts = qs.size() > 96 ? qs.substr(qs.size() - 96) : qs;
          for (size_t x = 0; x < pts.size(); x += 32) q.insert(pts.substr(x, 32));
          sd.insert(Seed(nr)); auto p = Perm(s, nr); pm[p.dump()]++;
          // the seed sent along is the one the answers were shuffled with
          auto sb = Seed(nr);
          if (sb.size() == 24) {
            uint128_t seed; uint64_t ctr; memcpy(&seed, sb.data(), 16); memcpy(&ctr, sb.data() + 16, 8);
            yacl::crypto::YaclReplayUrbg<uint32_t> u(seed, ctr); std::vector<uint64_t> ix{0, 1, 2}; std::shuffle(ix.begin(), ix.end(), u);
            bool same = p.size() == 3; for (int x = 0; x < 3 && same; ++x) same = p[ix[x]] == x + 1;
            tied += same;
          }
        }
        int mx = 0; for (auto& [k, v] : pm) mx = std::max(mx, v);
        c.add({{"e", "Fresh"}, {"n", n}, {"points", q.size()}, {"seeds", sd.size()}, {"tied", tied}, {"perms", pm.size()}, {"most", mx}, {"sizes", size.size()}});
      });
    // the key pair, the line and every count's cipher text are drawn anew at every preparation
    for (int i = 0; i < 3 * mult; ++i)
      with("keys-" + std::to_string(i), 9500 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, false); WriteTables(s, g);
        std::set<std::string> sk, oprf; std::set<uint64_t> line; int n = 12, same = 0, small = 0;
        auto slurp = [&](const std::string& f) { std::ifstream i2(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i2)), {}); };
        size_t entries = 0;
        for (int k = 0; k < n; ++k) {
          Case tmp; Off(k ? tmp : c, s, SO(s), true);
          std::vector<uint64_t> p(2); yacl::math::MPInt x; std::ifstream f(d + "/sk", std::ios::binary); Load(p, x, f);
          sk.insert(x.ToString()); for (auto w : p) { line.insert(w); small += w < (1ull << 40); }
          auto vd = slurp(d + "/v.db"), cd = slurp(d + "/c.db"); oprf.insert(vd.substr(vd.size() - 32)); same += vd.substr(vd.size() - 32) == cd.substr(cd.size() - 32);
          std::ifstream cf(d + "/c.db", std::ios::binary); auto [db, sz] = apsi::sender::SenderDB::Load(cf);
          entries = db.get_item_count();
        }
        c.add({{"e", "Keys"}, {"n", n}, {"sk", sk.size()}, {"line", line.size()}, {"small", small}, {"oprf", oprf.size()}, {"same", same}, {"entries", entries}});
      });
  }
  run.finish();
}
