// Private look-up of labels by key (the APSI command line and interface): preparing, stopping, serving, asking.
#include "mp.h"
#include "procnet.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <filesystem>
#include <fstream>
#include <future>
#include "ideal_apsi.h"
#include "psi/wrapper/apsi/api/receiver.h"
#include "psi/wrapper/apsi/api/sender.h"
#include "psi/wrapper/apsi/api/receiver_c_wrapper.h"
#include "psi/wrapper/apsi/api/sender_c_wrapper.h"
#include "psi/wrapper/apsi/cli/common_utils.h"
#include "psi/wrapper/apsi/cli/entry.h"
namespace fs = std::filesystem;
namespace aw = psi::apsi_wrapper;
namespace psi::apsi_wrapper::cli { void print_timing_report(const ::apsi::util::Stopwatch&) {} }
// ---- stopping a preparation with all its processes at one of its writes to files ----
struct Shared { std::atomic<long> step{0}, at{-1}; std::atomic<int> torn{0}, on{0}, sem{-1}; };
static Shared* g_sh = nullptr;
static bool Due() { return g_sh && g_sh->on && ++g_sh->step == g_sh->at; }
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
  if (fd > 2 && Due()) { if (g_sh->torn && n > 1) syscall(SYS_write, fd, b, n / 2); kill(0, SIGKILL); for (;;) pause(); }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (fd > 2 && Due()) { if (g_sh->torn && c > 0) syscall(SYS_writev, fd, v, 1); kill(0, SIGKILL); for (;;) pause(); }
  return syscall(SYS_writev, fd, v, c);
}
int semget(key_t k, int n, int f) noexcept { int r = syscall(SYS_semget, k, n, f); if (g_sh && g_sh->on) g_sh->sem = r; return r; }
}
// ---- what is looked up ----
struct Setup {
  std::string dir, params = "1 3", hdr; bool labelled = true, quote = false;
  std::vector<std::string> name; std::vector<std::pair<int, std::string>> rows; std::vector<int> ask;
  int nb = 1, ng = 1, procs = 1, threads = 1; bool stream[2] = {true, true}, ownparams = true, compress = false;
  std::string kind;  // saved, direct, bucket, api
};
static std::string Q(const std::string& f, bool always) {
  if (!always && f.find_first_of(",\"") == std::string::npos) return f;
  std::string r = "\""; for (char c : f) { if (c == '"') r += '"'; r += c; } return r + "\"";
}
static int H(const std::string& s) { return (int)(std::hash<std::string>()(s) & 0x3fffffff); }
static std::vector<std::vector<std::string>> ReadCsv(const std::string& f, bool& there) {
  std::ifstream i(f, std::ios::binary); there = i.good();
  std::string s((std::istreambuf_iterator<char>(i)), {});
  std::vector<std::vector<std::string>> r; std::vector<std::string> row; std::string cur; bool in = false, any = false;
  for (size_t k = 0; k < s.size(); ++k) {
    char ch = s[k];
    if (in) { if (ch == '"') { if (k + 1 < s.size() && s[k + 1] == '"') { cur += '"'; ++k; } else in = false; } else cur += ch; }
    else if (ch == '"' && cur.empty()) { in = true; any = true; }
    else if (ch == ',') { row.push_back(cur); cur.clear(); any = true; }
    else if (ch == '\n') { if (any || !cur.empty()) { row.push_back(cur); r.push_back(row); } row.clear(); cur.clear(); any = false; }
    else cur += ch;
  }
  if (any || !cur.empty()) { row.push_back(cur); r.push_back(row); }
  return r;
}
static void WriteDb(const Setup& s, const std::string& f) {
  std::ofstream o(f); o << s.hdr << "\n";
  for (auto& [id, l] : s.rows) { o << Q(s.name[id - 1], s.quote); if (s.labelled) o << "," << Q(l, s.quote); o << "\n"; }
  std::ofstream p(s.dir + "/p.json"); p << s.params;
}
static void WriteAsk(const Setup& s) { std::ofstream q(s.dir + "/q.csv"); q << (s.quote ? "\"key\"" : "key") << "\n"; for (int id : s.ask) q << Q(s.name[id - 1], s.quote) << "\n"; }
static aw::cli::SenderOptions SO(const Setup& s, bool prep) {
  aw::cli::SenderOptions o;
  o.threads = s.threads; o.silent = true; o.channel = "yacl"; o.streaming_result = s.stream[0]; o.params_file = s.dir + "/p.json"; o.compress = s.compress;
  o.source_file = s.dir + "/db.csv"; o.save_db_only = prep;
  if (s.kind == "saved") { if (prep) o.sdb_out_file = s.dir + "/s.db"; else { o.db_file = s.dir + "/s.db"; o.source_file = ""; } }
  if (s.kind == "bucket") {
    o.experimental_enable_bucketize = true; o.experimental_bucket_cnt = s.nb; o.experimental_bucket_folder = s.dir + "/b";
    o.experimental_db_generating_process_num = s.procs; o.experimental_bucket_group_cnt = s.ng;
  }
  return o;
}
static aw::cli::ReceiverOptions RO(const Setup& s) {
  aw::cli::ReceiverOptions o;
  o.threads = s.threads; o.silent = true; o.channel = "yacl"; o.streaming_result = s.stream[1]; o.query_file = s.dir + "/q.csv"; o.output_file = s.dir + "/out.csv";
  if (s.ownparams) o.params_file = s.dir + "/p.json";
  o.experimental_enable_bucketize = s.kind == "bucket"; o.experimental_bucket_cnt = s.nb;
  return o;
}
static aw::api::Sender::Option AO(const Setup& s) {
  aw::api::Sender::Option o; o.source_file = s.dir + "/db.csv"; o.db_path = s.dir + "/b"; o.group_cnt = s.ng; o.num_buckets = s.nb; o.compress = s.compress; o.params_file = s.dir + "/p.json";
  return o;
}
static void Prepare(const Setup& s) {
  if (s.kind == "api") { aw::api::Sender a(AO(s), s.procs); if (!a.GenerateSenderDb()) throw std::runtime_error("not generated"); return; }
  if (aw::cli::RunSender(SO(s, true), nullptr) != 0) throw std::runtime_error("refused");
}
// runs a preparation in a group of processes of its own; at: the write at which all of them die
static std::string Prep(Case& c, const Setup& s, bool good, long at = -1, bool torn = false, long* steps = nullptr) {
  g_sh->step = 0; g_sh->at = at; g_sh->torn = torn; g_sh->sem = -1;
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    setpgid(0, 0); g_sh->on = 1;
    try { Prepare(s); } catch (const std::exception& e) { if (getenv("VERIF_DEBUG")) fprintf(stderr, "prep: %s\n", e.what()); _exit(1); }
    _exit(0);
  }
  setpgid(p, p);
  std::string res = "hang"; int st = 0;
  for (int i = 0; i < 3000; ++i) { if (waitpid(p, &st, WNOHANG) == p) { res = WIFSIGNALED(st) ? "dead" : WEXITSTATUS(st) ? "no" : "ok"; break; } usleep(i < 200 ? 1000 : 10000); }
  kill(-p, SIGKILL); if (res == "hang") waitpid(p, &st, 0);
  // its processes are gone before the files are looked at again
  for (int i = 0; i < 1000 && kill(-p, 0) == 0; ++i) usleep(1000);
  g_sh->on = 0;
  if (g_sh->sem >= 0) { int id = g_sh->sem; syscall(SYS_semctl, id, 0, IPC_RMID, 0); }
  if (steps) { *steps = g_sh->step; return res; }
  c.add({{"e", "Prep"}, {"good", good}, {"stop", at >= 0}, {"res", res}});
  return res;
}
static json Rows(const Setup& s, const std::vector<std::vector<std::string>>& t) {
  json rows = json::array();
  for (auto& r : t) {
    auto it = r.empty() ? s.name.end() : std::find(s.name.begin(), s.name.end(), r[0]);
    rows.push_back({it == s.name.end() ? 0 : (int)(it - s.name.begin()) + 1, r.size() == 1 ? 0 : r.size() == 2 ? H(r[1]) : -1});
  }
  return rows;
}
static bool g_single = false;
static json ApiC(const Setup& s, int how) {
  ::Sender* sd = how & 1 ? BucketSenderLoad((s.dir + "/b").c_str(), s.threads)
                         : BucketSenderMake((s.dir + "/db.csv").c_str(), (s.dir + "/b").c_str(), s.ng, s.nb, 16, (s.dir + "/p.json").c_str(), s.compress);
  ::Receiver* r = BucketReceiverMake(s.nb, s.threads);
  if (s.ownparams) BucketReceiverLoadParamFile(r, (s.dir + "/p.json").c_str());
  else { CString p = BucketSenderGenerateParams(sd); BucketReceiverLoadParamsStr(r, p); FreeCString(&p); }
  BucketReceiverSetThreadCount(r, s.threads);
  std::vector<std::string> ask; for (int id : s.ask) ask.push_back(s.name[id - 1]);
  std::vector<CString> av; for (auto& x : ask) av.push_back({x.data(), x.size()});
  ::QueryCtx* ctx = how & 2 ? BucketReceiverMakeQueryCtxFromItems(r, {av.data(), av.size()}) : BucketReceiverMakeQueryCtxFromFile(r, (s.dir + "/q.csv").c_str());
  auto each = [&](CStringArray in, CString (*one)(::Sender*, CString)) { CStringArray o{(CString*)malloc(sizeof(CString) * in.size), in.size}; for (size_t i = 0; i < in.size; ++i) o.data[i] = one(sd, in.data[i]); return o; };
  CStringArray rq = BucketReceiverRequestOPRF(r, ctx), oq = g_single ? each(rq, BucketSenderRunOPRFSingle) : BucketSenderRunOPRFBatch(sd, rq);
  CStringArray qr = BucketReceiverRequestQuery(r, ctx, oq), ans = g_single ? each(qr, BucketSenderRunQuerySingle) : BucketSenderRunQueryBatch(sd, qr);
  json v;
  if (how & 4) {
    ::QueryResult* q = BucketReceiverProcessResult(r, ctx, ans);
    std::vector<std::vector<std::string>> t;
    for (size_t i = 0; i < q->row_count; ++i) { t.push_back({std::string(q->keys.data[i].data, q->keys.data[i].size)}); if (q->labeled) t.back().push_back(std::string(q->values.data[i].data, q->values.data[i].size)); }
    v["rows"] = Rows(s, t); v["cnt"] = q->row_count;
    if (q->row_count && q->labeled != s.labelled) v["cnt"] = -1;
    FreeQueryResult(q);
  } else v["cnt"] = BucketReceiverProcessResultToFile(r, ctx, ans, (s.dir + "/out.csv").c_str());
  for (auto* x : {&rq, &oq, &qr, &ans}) FreeCStringArray(x);
  BucketReceiverFreeQueryCtx(ctx); BucketReceiverFree(&r); BucketSenderFree(&sd);
  return v;
}
static json Api(const Setup& s, int how) {
  if (how & 8) { g_single = how & 16; return ApiC(s, how); }
  std::unique_ptr<aw::api::Sender> sp = how & 1 ? std::make_unique<aw::api::Sender>(s.dir + "/b", s.threads) : std::make_unique<aw::api::Sender>(AO(s), s.threads);
  auto& sd = *sp;
  aw::api::Receiver r(s.nb, s.threads);
  if (s.ownparams) r.LoadParamsConfig(s.dir + "/p.json"); else r.LoadSenderParams(sd.GenerateParams());
  std::vector<std::string> ask; for (int id : s.ask) ask.push_back(s.name[id - 1]);
  auto ctx = how & 2 ? r.BucketizeItems(ask) : r.BucketizeItems(s.dir + "/q.csv");
  auto rq = r.RequestOPRF(ctx);
  auto qr = r.RequestQuery(ctx, sd.RunOPRF(rq));
  auto ans = sd.RunQuery(qr);
  json v;
  if (how & 4) {
    auto [k, l] = r.ProcessResult(ctx, ans);
    std::vector<std::vector<std::string>> t; for (size_t i = 0; i < k.size(); ++i) { t.push_back({k[i]}); if (i < l.size()) t.back().push_back(l[i]); }
    v["rows"] = Rows(s, t); v["cnt"] = k.size(); if (l.size() > k.size()) v["cnt"] = -1;
  } else { auto n = r.ProcessResult(ctx, ans, s.dir + "/out.csv"); v["cnt"] = std::accumulate(n.begin(), n.end(), 0); }
  return v;
}
static void Look(Case& c, const Setup& s, bool good, int how, bool hurt = false) {
  fs::remove(s.dir + "/out.csv");
  verif::NetOpt no; no.timeout_ms = 40000; no.recv_timeout_ms = good && !hurt ? 15000 : 1500;
  json e = {{"e", "Look"}, {"good", good}, {"hurt", hurt}, {"ask", s.ask}, {"cnt", -1}};
  auto st = [&](const json& r) { return r["st"] == "ok" ? "ok" : r["st"] == "err" ? "no" : r["st"].get<std::string>(); };
  json v;
  if (s.kind == "api") {
    auto nr = verif::RunNet({{[&](std::shared_ptr<yacl::link::Context>) { return Api(s, how); }}}, no);
    e["s"] = e["r"] = st(nr.res[0]); if (nr.res[0]["st"] == "ok") v = nr.res[0]["v"];
  } else {
    auto nr = verif::RunNet({{[&](std::shared_ptr<yacl::link::Context> l) { return json(aw::cli::RunSender(SO(s, false), l)); }},
                             {[&](std::shared_ptr<yacl::link::Context> l) { int n = -2, rc = aw::cli::RunReceiver(RO(s), l, &n); if (rc) throw std::runtime_error("rc"); return json{{"cnt", n}}; }}}, no);
    e["s"] = st(nr.res[0]); e["r"] = st(nr.res[1]); if (nr.res[1]["st"] == "ok") v = nr.res[1]["v"];
  }
  if (v.contains("cnt")) e["cnt"] = v["cnt"];
  bool there; auto t = ReadCsv(s.dir + "/out.csv", there);
  json hdr = json::array(); if (!t.empty()) { for (auto& x : t[0]) hdr.push_back(x); t.erase(t.begin()); }
  e["there"] = there; e["hdr"] = hdr; e["rows"] = Rows(s, t);
  if (v.contains("rows")) { e["there"] = true; e["hdr"] = c.in["hdr"]; e["rows"] = v["rows"]; }
  c.add(e);
}
// ---- cases ----
static std::string Text(Rng& g, int kind, bool label) {
  static const std::vector<std::string> odd = {"a,b", "\"q\"", "x\"y", ",", "NA", "null", " pad ", "0", "-1", "é漢", "key", "value", "a\tb", "'", "#c", "nan", "\"", "\",\"", "\"\""};
  if (kind == 0) return (label ? "v" : "k") + std::to_string(g() % 100000);
  if (g() % 2) return odd[g() % odd.size()] + (label ? "" : std::to_string(g() % 1000));
  std::string r; for (int n = R(g, 1, kind == 2 ? 300 : 12); n > 0; --n) r.push_back("abcXYZ019 -_,\"|;:"[g() % 17]);
  if (!label && r.find_first_not_of(' ') == std::string::npos) r = "z";
  return r;
}
static Setup Make(Rng& g, Case& c, const std::string& dir, const std::string& kind) {
  Setup s; s.dir = dir; s.kind = kind;
  int kinds = g() % 3, nk = R(g, 1, g() % 4 ? 8 : 40);
  s.labelled = g() % 3; s.quote = g() % 2; s.threads = R(g, 1, 4); s.stream[0] = g() % 2; s.stream[1] = g() % 2; s.ownparams = g() % 2; s.compress = g() % 2;
  s.hdr = s.labelled ? (g() % 2 ? "key,value" : "\"key\",\"value\"") : g() % 2 ? "key" : "\"key\"";
  s.params = std::to_string(R(g, 1, 3)) + " " + std::to_string(R(g, 1, 4));
  s.nb = R(g, 1, g() % 3 ? 6 : 30); s.ng = R(g, 1, g() % 3 ? 4 : 40); s.procs = R(g, 1, 4);
  std::set<std::string> used;
  for (int i = 0; i < nk + 6; ++i) { std::string k; do k = Text(g, kinds, false); while (!used.insert(k).second); s.name.push_back(k); }
  for (int k = 1; k <= nk; ++k) s.rows.push_back({k, s.labelled ? Text(g, kinds, true) : ""});
  std::shuffle(s.rows.begin(), s.rows.end(), g);
  c.in["db"] = json::array(); for (auto& [k, l] : s.rows) c.in["db"].push_back({k, s.labelled ? H(l) : 0});
  c.in["hdr"] = s.labelled ? json{"key", "value"} : json{"key"};
  return s;
}
static void Ask(Setup& s, Rng& g) {
  std::vector<int> ids(s.name.size()); std::iota(ids.begin(), ids.end(), 1); std::shuffle(ids.begin(), ids.end(), g);
  ids.resize(R(g, 1, g() % 2 ? 3 : (int)ids.size()));
  s.ask = ids; WriteAsk(s);
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 12 : 1;
  g_sh = new (mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared();
  std::string base = a.out + ".apsi." + std::to_string(getpid());
  auto with = [&](const std::string& key, int i, const std::function<void(Case&, Rng&, const std::string&)>& f) {
    run.run(key, [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u); fs::remove_all(base); fs::create_directories(base); setenv("VERIF_ARROW_BLOCK", g() % 2 ? "64" : "65536", 1); f(c, g, base); fs::remove_all(base); });
  };
  static const char* kinds[] = {"saved", "direct", "bucket", "bucket", "api", "api"};
  if (a.mode == "look") {
    for (int i = 0; i < 360 * mult; ++i)
      with("look-" + std::to_string(i), i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, kinds[i % 6]); WriteDb(s, d + "/db.csv");
        if (s.kind != "direct" && !(s.kind == "bucket" && g() % 3 == 0)) {
          Prep(c, s, true);
          if (g() % 3 == 0 && s.kind != "saved") Prep(c, s, true);
          // what was prepared is what is served, whatever became of the table since
          if (g() % 2) { Setup o = s; o.rows.pop_back(); WriteDb(o, d + "/db.csv"); }
        }
        for (int k = R(g, 1, 2); k > 0; --k) { Ask(s, g); Look(c, s, true, g() % 32); }
      });
    for (int i = 0; i < 80 * mult; ++i)
      with("bad-" + std::to_string(i), 3000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, kinds[i % 6]); WriteDb(s, d + "/db.csv"); Ask(s, g);
        Setup o = s;
        switch (i % 5) {
          case 0: case 4: o.rows.push_back(o.rows[g() % o.rows.size()]); if (g() % 2) o.rows.back().second += "x"; std::shuffle(o.rows.begin(), o.rows.end(), g); WriteDb(o, d + "/db.csv"); break;
          case 1: o.rows.clear(); WriteDb(o, d + "/db.csv"); break;
          case 2: o.hdr = "id,value"; WriteDb(o, d + "/db.csv"); break;
          case 3: fs::remove(d + "/db.csv"); break;
        }
        if (s.kind != "direct") Prep(c, s, false);
        if (g() % 2 && s.kind != "direct") Prep(c, s, false);
        Look(c, s, false, g() % 32);
      });
    // another way to divide than the folder was made with is refused, and does no harm
    for (int i = 0; i < 24 * mult; ++i)
      with("other-" + std::to_string(i), 4000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, i % 2 ? "bucket" : "api"); WriteDb(s, d + "/db.csv");
        Prep(c, s, true);
        Setup o = s;
        switch (i / 2 % 3) { case 0: o.nb += R(g, 1, 5); break; case 1: o.ng += R(g, 1, 5); break; case 2: o.params = "4 5"; break; }
        { std::ofstream p(d + "/p.json"); p << o.params; }
        Prep(c, o, false);
        { std::ofstream p(d + "/p.json"); p << s.params; }
        Ask(s, g); Look(c, s, true, g() % 32);
      });
    // a question asked twice over
    for (int i = 0; i < 12 * mult; ++i)
      with("twice-" + std::to_string(i), 5000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, kinds[i % 4]); WriteDb(s, d + "/db.csv");
        if (s.kind != "direct") Prep(c, s, true);
        Ask(s, g); s.ask.push_back(s.ask[0]); WriteAsk(s);
        Look(c, s, false, 0);
      });
  }
  if (a.mode == "stop") {
    for (int i = 0; i < 200 * mult; ++i)
      with("stop-" + std::to_string(i), 6000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, i % 3 ? "bucket" : "api"); WriteDb(s, d + "/db.csv");
        long n = 0; Prep(c, s, true, -1, false, &n); fs::remove_all(d + "/b");
        for (int k = R(g, 1, 2); k > 0; --k) Prep(c, s, true, R(g, 1, (int)n), g() % 2);
        if (s.kind == "api" || g() % 3) Prep(c, s, true);
        Ask(s, g); Look(c, s, true, g() % 32);
      });
  }
  if (a.mode == "cut") {
    // what was stored and then lost its end, or a bit of it
    for (int i = 0; i < 160 * mult; ++i)
      with("cut-" + std::to_string(i), 9000 + i, [&](Case& c, Rng& g, const std::string& d) {
        Setup s = Make(g, c, d, i % 2 ? "saved" : i % 4 ? "bucket" : "api"); WriteDb(s, d + "/db.csv");
        Prep(c, s, true);
        std::vector<std::string> f;
        if (s.kind == "saved") f.push_back(d + "/s.db");
        else for (auto& x : fs::directory_iterator(d + "/b")) if (x.path().extension() == ".db" && fs::file_size(x)) f.push_back(x.path());
        std::sort(f.begin(), f.end());
        auto& x = f[g() % f.size()]; long n = fs::file_size(x), cut = g() % 2 ? R(g, 1, (int)n) : R(g, 1, (int)std::min(n, 40L));
        fs::resize_file(x, n - cut);
        s.ownparams = g() % 4;
        s.ask.resize(s.name.size()); std::iota(s.ask.begin(), s.ask.end(), 1); if (g() % 3 == 0) Ask(s, g); else WriteAsk(s);
        Look(c, s, s.kind != "saved", g() % 32 | 1, true);
      });
  }
  run.finish();
}
