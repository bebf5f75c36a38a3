// Tasks started through the execution API, through a v2 configuration and through the launcher's main().
#include <dlfcn.h>
#include <cmath>
#include "ub.h"
#include "google/protobuf/util/json_util.h"
#include "spdlog/sinks/null_sink.h"
#include "psi/apps/psi_launcher/kuscia_adapter.h"
#include "psi/apps/psi_launcher/launch.h"
#include "psi/algorithm/dkpir/entry.h"
#include "psi/proto/entry.pb.h"
#include "psi/proto/kuscia.pb.h"
#include "psi/utils/resource_manager.h"
#include "psi/wrapper/apsi/cli/entry.h"
#define main launcher_main
#include "psi/apps/psi_launcher/main.cc"
#undef main
namespace api = psi::api;
using LinkP = std::shared_ptr<yacl::link::Context>;

// traces of runs that name no file go to /tmp: keep them among what is removed afterwards
extern "C" FILE* fopen64(const char* p, const char* m) {
  static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  std::string s = p ? p : "";
  if (s.rfind("/tmp/psi_", 0) == 0 && getenv("TMPDIR")) s = std::string(getenv("TMPDIR")) + s.substr(4);
  return real(s.c_str(), m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }

// ---- private look-up: the entry points are stand-ins that keep what they were given ----------------------------------
static json g_opt;
static int g_rc = 0, g_hits = 0;
static json Both(const psi::apsi_wrapper::cli::ReceiverOptions& o) {
  return {{"threads", o.threads}, {"log_level", o.log_level}, {"log_file", o.log_file}, {"silent", o.silent}, {"query_file", o.query_file},
          {"output_file", o.output_file}, {"params_file", o.params_file}, {"channel", o.channel}, {"bucketize", o.experimental_enable_bucketize},
          {"bucket_cnt", o.experimental_bucket_cnt}, {"batch", o.query_batch_size}};
}
static json Both(const psi::apsi_wrapper::cli::SenderOptions& o) {
  return {{"threads", o.threads}, {"log_level", o.log_level}, {"log_file", o.log_file}, {"silent", o.silent}, {"nonce", o.nonce_byte_count},
          {"compress", o.compress}, {"channel", o.channel}, {"db_file", o.db_file}, {"source_file", o.source_file}, {"params_file", o.params_file},
          {"sdb_out_file", o.sdb_out_file}, {"save_db_only", o.save_db_only}, {"bucketize", o.experimental_enable_bucketize},
          {"bucket_cnt", o.experimental_bucket_cnt}, {"bucket_folder", o.experimental_bucket_folder},
          {"procs", o.experimental_db_generating_process_num}, {"groups", o.experimental_bucket_group_cnt}};
}
namespace psi::apsi_wrapper::cli {
int RunReceiver(const ReceiverOptions& o, const LinkP&, int* match_cnt) { g_opt = Both(o); g_opt["call"] = "receiver"; *match_cnt = g_hits; return g_rc; }
int RunSender(const SenderOptions& o, const LinkP&) { g_opt = Both(o); g_opt["call"] = "sender"; return g_rc; }
}  // namespace psi::apsi_wrapper::cli
static json Dk(const psi::dkpir::DkPirSenderOptions& o, const char* call) {
  return {{"call", call}, {"threads", o.threads}, {"curve", (int)o.curve_type}, {"skip", o.skip_count_check}, {"log_level", o.log_level}, {"log_file", o.log_file},
          {"params_file", o.params_file}, {"source_file", o.source_file}, {"value_sdb", o.value_sdb_out_file}, {"count_sdb", o.count_sdb_out_file},
          {"secret", o.secret_key_file}, {"result_file", o.result_file}, {"tmp", o.tmp_folder}, {"key", o.key}, {"labels", o.labels}};
}
namespace psi::dkpir {
int SenderOffline(const DkPirSenderOptions& o) { g_opt = Dk(o, "offline"); return g_rc; }
int SenderOnline(const DkPirSenderOptions& o, LinkP) { g_opt = Dk(o, "online"); return g_rc; }
int ReceiverOnline(const DkPirReceiverOptions& o, LinkP) {
  g_opt = {{"call", "query"}, {"threads", o.threads}, {"curve", (int)o.curve_type}, {"skip", o.skip_count_check}, {"log_level", o.log_level}, {"log_file", o.log_file},
           {"params_file", o.params_file}, {"query_file", o.query_file}, {"result_file", o.result_file}, {"tmp", o.tmp_folder}, {"key", o.key}, {"labels", o.labels}};
  return g_rc;
}
}  // namespace psi::dkpir

// ---- what a party is told, in terms of ranks -----------------------------------------------------------------------------
static const std::vector<std::string> kVia = {"api", "api", "conf", "main", "json", "kuscia"};
struct Told {
  std::string proto = "ecdh", via = "api", null_rep = "NULL", level;
  int recv = 0, left = 0, join = 1, curve = 1;
  long batch = 4096, bucket = 1 << 20;
  bool bc = true, low = false, align = true, uniq = false, rec = false;
  double keep = 1;  // (dp)
  json J() const {
    return {{"proto", proto}, {"via", via}, {"recv", recv}, {"left", left}, {"join", kJoin[join]}, {"jn", join}, {"curve", curve}, {"batch", batch}, {"bucket", bucket},
            {"bc", bc}, {"low", low}, {"align", align}, {"uniq", uniq}, {"rec", rec}, {"null", null_rep}, {"level", level}};
  }
};
static const std::map<std::string, api::PsiProtocol> kProto = {
    {"ecdh", api::PsiProtocol::PROTOCOL_ECDH}, {"kkrt", api::PsiProtocol::PROTOCOL_KKRT}, {"rr22", api::PsiProtocol::PROTOCOL_RR22},
    {"3pc", api::PsiProtocol::PROTOCOL_ECDH_3PC}, {"npc", api::PsiProtocol::PROTOCOL_ECDH_NPC}, {"knpc", api::PsiProtocol::PROTOCOL_KKRT_NPC},
    {"dp", api::PsiProtocol::PROTOCOL_DP}};
struct Files { std::string in, out, rec, trace; std::vector<std::string> keys; };
static api::PsiExecuteConfig ApiConf(const Told& t, const Files& f) {
  api::PsiExecuteConfig c;
  c.protocol_conf.protocol = kProto.at(t.proto);
  c.protocol_conf.receiver_rank = t.recv;
  c.protocol_conf.bucket_size = t.bucket;
  c.protocol_conf.broadcast_result = t.bc;
  c.protocol_conf.ecdh_params.curve = (api::EllipticCurveType)t.curve;
  c.protocol_conf.ecdh_params.batch_size = t.batch;
  c.protocol_conf.rr22_params.low_comm_mode = t.low;
  if (t.proto == "dp") { c.protocol_conf.dp_params.bob_sub_sampling = t.keep; c.protocol_conf.dp_params.epsilon = 60; }
  c.input_params.path = f.in;
  c.input_params.selected_keys = f.keys;
  c.input_params.keys_unique = t.uniq;
  c.output_params.path = f.out;
  c.output_params.disable_alignment = !t.align;
  c.output_params.csv_null_rep = t.null_rep;
  c.join_conf.type = (api::ResultJoinType)t.join;
  c.join_conf.left_side_rank = t.left;
  c.checkpoint_conf.enable = t.rec;
  c.checkpoint_conf.path = f.rec;
  return c;
}
// the same, as somebody at `rank` writes it down for v2
static v2::PsiConfig V2Conf(const Told& t, const Files& f, int rank) {
  v2::PsiConfig c;
  auto* p = c.mutable_protocol_config();
  p->set_protocol(t.proto == "ecdh" ? v2::PROTOCOL_ECDH : t.proto == "kkrt" ? v2::PROTOCOL_KKRT : v2::PROTOCOL_RR22);
  p->set_role(t.recv == rank ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  p->set_broadcast_result(t.bc);
  p->mutable_ecdh_config()->set_curve((psi::CurveType)t.curve);
  p->mutable_ecdh_config()->set_batch_size(t.batch);
  p->mutable_kkrt_config()->set_bucket_size(t.bucket);
  p->mutable_rr22_config()->set_bucket_size(t.bucket);
  p->mutable_rr22_config()->set_low_comm_mode(t.low);
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(f.in);
  c.mutable_input_attr()->set_keys_unique(t.uniq);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(f.out);
  c.mutable_output_attr()->set_csv_null_rep(t.null_rep);
  for (auto& k : f.keys) c.add_keys(k);
  c.set_disable_alignment(!t.align);
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)t.join);
  c.set_left_side(t.left == t.recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  c.set_check_hash_digest(true);
  if (t.rec) { c.mutable_recovery_config()->set_enabled(true); c.mutable_recovery_config()->set_folder(f.rec); }
  c.mutable_debug_options()->set_logging_level(t.level);
  c.mutable_debug_options()->set_trace_path(f.trace);
  return c;
}
static psi::BucketPsiConfig BucketConf(const Told& t, const Files& f) {
  psi::BucketPsiConfig b;
  b.set_psi_type(t.proto == "3pc" ? psi::ECDH_PSI_3PC : t.proto == "npc" ? psi::ECDH_PSI_NPC : t.proto == "knpc" ? psi::KKRT_PSI_NPC : psi::DP_PSI_2PC);
  b.set_receiver_rank(t.recv);
  b.set_broadcast_result(t.bc);
  b.set_bucket_size(t.bucket);
  b.set_curve_type((psi::CurveType)t.curve);
  b.mutable_input_params()->set_path(f.in);
  for (auto& k : f.keys) b.mutable_input_params()->add_select_fields(k);
  b.mutable_input_params()->set_precheck(!t.uniq);
  b.mutable_output_params()->set_path(f.out);
  b.mutable_output_params()->set_need_sort(t.align);
  b.mutable_dppsi_params()->set_bob_sub_sampling(t.keep);
  b.mutable_dppsi_params()->set_epsilon(60);
  return b;
}
static json Rep(const api::PsiExecuteReport& r) {
  return {{"orig", r.original_count}, {"okey", r.original_unique_count}, {"inter", r.intersection_count}, {"ikey", r.intersection_unique_count}};
}
static void Quiet() { spdlog::set_default_logger(std::make_shared<spdlog::logger>("x", std::make_shared<spdlog::sinks::null_sink_mt>())); }
static std::string AsJson(const google::protobuf::Message& m) {
  std::string s;
  google::protobuf::util::JsonPrintOptions o;
  o.preserve_proto_field_names = true;
  if (!google::protobuf::util::MessageToJsonString(m, &s, o).ok()) throw std::runtime_error("json");
  return s;
}
// main() with the given configuration; the link it asks for is the one of this process, if it asks for the right one
static json Main(const std::string& how, const psi::LaunchConfig& lc, LinkP l, const std::string& dir, const std::string& text = "") {
  json seen = json::object();
  yacl::link::BrpcHook() = [&, l](const yacl::link::ContextDesc& d, size_t rank) {
    seen["rank"] = rank;
    if (!l || rank != l->Rank() || d.parties.size() != l->WorldSize()) throw std::runtime_error("no such place on the link");
    return l;
  };
  std::vector<std::string> a = {"launcher"};
  if (how == "json") a.push_back("--json=" + AsJson(lc));
  else {
    std::string f = dir + "/conf-" + std::to_string(getpid());
    std::ofstream(f) << (how == "kuscia" ? text : AsJson(lc));
    a.push_back((how == "kuscia" ? "--kuscia=" : "--config=") + f);
  }
  std::vector<char*> v;
  for (auto& s : a) v.push_back(s.data());
  v.push_back(nullptr);
  if (launcher_main((int)a.size(), v.data()) != 0) throw std::runtime_error("main");
  return json{{"norep", true}};
}
// parties and the name of one of them, not in the order of names
static void LinkOf(psi::LaunchConfig& lc, int n, int self) {
  static const char* nm[] = {"dora", "bert", "carl", "anna", "ezra"};
  for (int i = 0; i < n; ++i) {
    auto* p = lc.mutable_link_config()->add_parties();
    p->set_id(nm[i]);
    p->set_host("127.0.0.1:" + std::to_string(9000 + i));
  }
  lc.set_self_link_party(nm[self]);
}
// the same, handed out by Kuscia: everybody's part is in it, the places follow from the names
static std::string KusciaText(const psi::LaunchConfig& own, int n, int self) {
  static const char* nm[] = {"anna", "bert", "carl", "dora", "ezra"};
  kuscia::ClusterDefine cd;
  kuscia::TaskInputConfig ti;
  kuscia::AllocatedPorts ap;
  for (int k = 0; k < n; ++k) {
    int i = (k + 1) % n;
    auto* p = cd.add_parties();
    p->set_name(nm[i]);
    p->add_services()->add_endpoints("h" + std::to_string(i) + ":80");
    psi::LaunchConfig lc;
    if (i == self) lc = own;
    else if (own.has_psi_config()) lc.mutable_psi_config()->add_keys("not yours");
    else if (own.has_ub_psi_config()) lc.mutable_ub_psi_config()->add_keys("not yours");
    else lc.mutable_legacy_psi_config()->set_bucket_size(7);
    (*ti.mutable_sf_psi_config_map())[nm[i]] = lc;
  }
  cd.set_self_party_idx((self + n - 1) % n);
  ap.add_ports()->set_port(1000 + self);
  json d = {{"task_id", "t"}, {"task_cluster_def", AsJson(cd)}, {"task_input_config", AsJson(ti)}, {"allocated_ports", AsJson(ap)}};
  return d.dump();
}
static json Go(const Told& t, const Files& f, int rank, int n, LinkP l, const std::string& dir) {
  Quiet();
  bool old = t.proto == "3pc" || t.proto == "npc" || t.proto == "knpc" || t.proto == "dp";
  if (t.via == "api") {
    api::ProgressParams pp;
    int last = -1, calls = 0, down = 0;
    pp.interval_ms = 1;
    pp.hook = [&](const psi::Progress::Data& d) { ++calls; if ((int)d.percentage < last) ++down; last = d.percentage; };
    json r = Rep(api::PsiExecute(ApiConf(t, f), l, pp));
    if (old) r["hook"] = {last, calls > 0, down};
    return r;
  }
  if (t.via == "conf") return ReportJson(old ? psi::RunLegacyPsi(BucketConf(t, f), l) : psi::RunPsi(V2Conf(t, f, rank), l));
  psi::LaunchConfig lc;
  if (t.via != "kuscia") LinkOf(lc, n, rank);
  if (old) *lc.mutable_legacy_psi_config() = BucketConf(t, f);
  else *lc.mutable_psi_config() = V2Conf(t, f, rank);
  return Main(t.via, lc, l, dir, t.via == "kuscia" ? KusciaText(lc, n, rank) : "");
}
// ---- two parties ------------------------------------------------------------------------------------------------------------
static void Two(Case& c, const Args& a, Rng& g, int differ) {
  Scratch S(a.tmp);
  Told t;
  t.proto = std::vector<std::string>{"ecdh", "kkrt", "rr22"}[g() % 3];
  t.recv = g() % 2; t.left = g() % 2; t.join = g() % 6; t.curve = R(g, 1, 5);
  if (g() % 2) t.batch = R(g, 1, 6);
  if (g() % 2) t.bucket = R(g, 1, 6);
  t.bc = g() % 3 != 0; t.low = g() % 3 == 0; t.rec = g() % 3 == 0;
  if (g() % 3 == 0) t.null_rep = g() % 2 ? "NA" : "nil";
  Told tt[2] = {t, t};
  Gen G = MakeKeys(g, R(g, 1, 2), R(g, 2, 10), g() % 8);
  std::vector<int> ids[2];
  Side sd[2];
  Files f[2];
  for (int p = 0; p < 2; ++p) {
    tt[p].via = kVia[g() % kVia.size()];
    tt[p].align = g() % 4 != 0;
    tt[p].uniq = g() % 3 == 0;
    ids[p] = PickIds(g, G.universe, R(g, 1, 10), tt[p].uniq || g() % 3 == 0);
    sd[p] = MakeSide(g, G, ids[p], p ? "b" : "a", g() % 2, 1, false);
    f[p] = {S / ("in" + std::to_string(p)), S / ("out" + std::to_string(p)), S / ("rec" + std::to_string(p)), "", sd[p].keys};
    if (tt[p].via != "api" && g() % 2) f[p].trace = S / ("trace" + std::to_string(p));
    if (tt[p].via != "api") tt[p].level = std::vector<std::string>{"", "info", "Warn", "OFF", "trace"}[g() % 5];
    WriteCsv(f[p].in, sd[p].t);
  }
  if (differ) {
    Told& x = tt[g() % 2];
    switch (g() % 9) {
      case 0: x.recv = 1 - x.recv; break;
      case 1: x.bc = !x.bc; break;
      case 2: x.join = x.join == 5 ? 1 : x.join == 0 ? 2 : x.join + 1; break;
      case 3: x.left = 1 - x.left; break;
      case 4: x.proto = x.proto == "ecdh" ? "kkrt" : x.proto == "kkrt" ? "rr22" : "ecdh"; break;
      case 5: if (x.proto == "ecdh") x.curve = x.curve % 5 + 1; else if (x.proto == "rr22") x.low = !x.low; else x.bucket++; break;
      case 6: if (x.proto == "ecdh") x.batch++; else x.bucket++; break;
      case 7: x.rec = !x.rec; break;
      case 8: if (x.via == "api") x.null_rep += "x"; else x.level = "loud"; break;
    }
  }
  bool delays = g() % 4 == 0;
  auto dr = std::make_shared<Rng>(g());
  std::vector<verif::Party> ps(2);
  for (int p = 0; p < 2; ++p) {
    Told q = tt[p]; Files ff = f[p];
    ps[p].fn = [q, ff, p, &S](LinkP l) { return Go(q, ff, p, 2, l, S.dir); };
  }
  verif::NetOpt no;
  no.record = false;
  no.timeout_ms = 25000;
  if (delays) no.delay = [dr](const verif::Frame&) { if ((*dr)() % 4 == 0) usleep((*dr)() % 3000); };
  auto nr = verif::RunNet(ps, no);
  json tab[2], conf = json::array();
  for (int p = 0; p < 2; ++p) {
    std::map<std::string, int> rowid;
    tab[p] = json::array();
    for (size_t i = 0; i < sd[p].t.rows.size(); ++i)
      tab[p].push_back({{"k", ids[p][i]}, {"row", rowid.emplace(Join(sd[p].t.rows[i]), rowid.size() + 1).first->second}});
    conf.push_back(tt[p].J());
    json e = {{"e", "End"}, {"p", p}, {"st", nr.res[p]["st"]}, {"out", fs::exists(f[p].out)}};
    if (nr.res[p]["st"] != "ok") e["err"] = nr.res[p].value("err", "");
    else {
      e["rep"] = json::array();
      auto& v = nr.res[p]["v"];
      if (!v.contains("norep")) e["rep"].push_back(v);
      Table t;
      bool ex = ReadCsv(f[p].out, t);
      e["hdr"] = !ex || t.cols == sd[p].t.cols;
      e["rec"] = fs::exists(f[p].rec) && !fs::is_empty(f[p].rec);
      e["trace"] = f[p].trace.empty() || fs::exists(f[p].trace);
      std::string na = Join(std::vector<std::string>(sd[p].t.cols.size(), tt[p].null_rep));
      json rows = json::array();
      for (auto& r : t.rows) {
        if (rows.size() > 20000) { rows.push_back(-1); break; }
        auto it = rowid.find(Join(r));
        rows.push_back(it != rowid.end() ? it->second : Join(r) == na ? 0 : -1);
      }
      e["rows"] = rows;
    }
    c.add(e);
  }
  c.add({{"e", "Zip"}});
  c.in = {{"conf", conf}, {"tab", {tab[0], tab[1]}}};
}
// ---- the older protocols ------------------------------------------------------------------------------------------------------
static void Legacy(Case& c, const Args& a, Rng& g) {
  Scratch S(a.tmp);
  Told t;
  t.proto = std::vector<std::string>{"3pc", "npc", "knpc", "dp"}[g() % 4];
  int n = t.proto == "3pc" ? 3 : t.proto == "dp" ? 2 : R(g, 3, 5);
  t.recv = R(g, 0, n - 1);
  t.bc = t.proto != "dp" && g() % 2;
  t.curve = t.proto == "knpc" ? 0 : R(g, 1, 3);
  t.align = g() % 2;
  if (g() % 2 && t.proto != "dp") t.bucket = R(g, 5, 20);  // (in buckets, the DP one hides what it finds in some of them)
  int uni = R(g, 4, 24), nk = R(g, 1, 2);
  Gen G = MakeKeys(g, nk, uni, 0);
  std::vector<std::vector<int>> ids(n);
  std::vector<Side> sd(n);
  std::vector<Files> f(n);
  std::vector<verif::Party> ps(n);
  auto core = PickIds(g, uni, R(g, 0, uni - 1), true);
  if (t.proto == "dp" && g() % 4 == 0) t.keep = 0;
  int twice = g() % 8 == 0 ? R(g, 0, n - 1) : -1;  // who has a key twice, and wants to be told
  json vias = json::array();
  for (int p = 0; p < n; ++p) {
    std::set<int> s(core.begin(), core.end());
    for (int k : PickIds(g, uni, R(g, 1, uni), true)) s.insert(k);
    ids[p].assign(s.begin(), s.end());
    std::shuffle(ids[p].begin(), ids[p].end(), g);
    if (p == twice) ids[p].push_back(ids[p][g() % ids[p].size()]);
    sd[p] = MakeSide(g, G, ids[p], std::string(1, 'a' + p), g() % 2, 1, false);
    fs::create_directories(S / std::to_string(p));
    f[p] = {S / (std::to_string(p) + "/in.csv"), S / (std::to_string(p) + "/out.csv"), "", "", sd[p].keys};
    WriteCsv(f[p].in, sd[p].t);
    Told q = t; Files ff = f[p];
    q.via = kVia[g() % kVia.size()];
    q.uniq = p != twice && g() % 2;
    vias.push_back(q.via);
    ps[p].fn = [q, ff, p, n, &S](LinkP l) { return Go(q, ff, p, n, l, S.dir); };
  }
  verif::NetOpt no;
  no.record = false;
  no.timeout_ms = 25000;
  auto nr = verif::RunNet(ps, no);
  c.in = {{"sets", ids}, {"recv", t.recv}, {"bc", t.bc}, {"type", t.proto}, {"sort", t.align}, {"via", vias}, {"keep", t.keep != 0}, {"twice", twice}};
  for (int p = 0; p < n; ++p) {
    if (nr.res[p]["st"] != "ok") { c.add({{"e", "Failed"}, {"p", p}, {"st", nr.res[p]["st"]}, {"out", fs::exists(f[p].out)}, {"err", nr.res[p].value("err", "")}}); continue; }
    json rows = json::array();
    Table tb;
    bool there = ReadCsv(f[p].out, tb);
    int extra = 0;
    for (auto& e : fs::recursive_directory_iterator(S / std::to_string(p)))
      if (e.is_regular_file() && e.path() != f[p].in && e.path() != f[p].out) ++extra;
    for (auto& r : tb.rows) {
      int id = -1;
      for (size_t i = 0; i < sd[p].t.rows.size(); ++i) if (sd[p].t.rows[i] == r) id = ids[p][i];
      rows.push_back(id);
    }
    auto& v = nr.res[p]["v"];
    json e = {{"e", "Ran"}, {"p", p}, {"there", there}, {"cols", !there || tb.cols == sd[p].t.cols}, {"rows", rows}, {"left", extra}, {"rep", json::array()}, {"hook", json::array()}};
    if (!v.contains("norep")) e["rep"].push_back({v["orig"], v["inter"]});
    if (v.contains("hook")) e["hook"] = v["hook"];
    c.add(e);
  }
}
// ---- unbalanced PSI --------------------------------------------------------------------------------------------------------------
static api::ub::UbPsiExecuteConfig UbApi(const World& w, int p, UC::Mode m, const On& o, int server_rank) {
  api::ub::UbPsiExecuteConfig c;
  c.mode = (api::ub::UbPsiExecuteConfig::Mode)m;
  c.role = p ? api::ub::UbPsiRole::ROLE_CLIENT : api::ub::UbPsiRole::ROLE_SERVER;
  c.server_receive_result = o.sg;
  c.client_receive_result = o.cg;
  c.cache_path = w.S / (p ? "cache-c" : "cache-s");
  c.input_params.path = w.in(p);
  c.input_params.selected_keys = w.sd[p].keys;
  c.output_params.path = w.out(p);
  c.output_params.disable_alignment = !o.align;
  if (!o.nrep.empty()) c.output_params.csv_null_rep = o.nrep;
  if (!p && w.keyfile) c.server_params.secret_key_path = w.S / "key.bin";
  c.join_conf.type = (api::ResultJoinType)o.join;
  c.join_conf.left_side_rank = o.left == 1 ? server_rank : 1 - server_rank;
  return c;
}
static verif::NetResult ActVia(World& w, UC::Mode m, const On& o, Rng& g, bool both, bool swap, json& vias) {
  std::vector<verif::Party> ps(both ? 2 : 1);
  vias = json::array();
  for (int p = 0; p < (int)ps.size(); ++p) {
    int rank = both && swap ? 1 - p : p, srank = both && swap ? 1 : 0;
    std::string via = kVia[g() % (both ? kVia.size() : kVia.size() - 1)];  // (a task of Kuscia always has a link)
    vias.push_back(via);
    auto ac = UbApi(w, p, m, o, srank);
    auto conf = UbConf(w, p, m, o);
    if (o.nrep.empty()) conf.mutable_output_attr()->set_csv_null_rep("NULL");
    long kb = w.kb[p];
    std::string dir = w.S.dir;
    ps[rank].fn = [=](LinkP l) {
      Quiet();
      if (!both) l = nullptr;
      KeyBatch(kb);
      if (via == "api") return Rep(api::UbPsiExecute(ac, l));
      if (via == "conf") return ReportJson(psi::RunUbPsi(conf, l));
      psi::LaunchConfig lc;
      if (both && via != "kuscia") LinkOf(lc, 2, rank);
      *lc.mutable_ub_psi_config() = conf;
      return Main(via, lc, l, dir, via == "kuscia" ? KusciaText(lc, 2, rank) : "");
    };
  }
  verif::NetOpt no;
  no.timeout_ms = 25000;
  no.record = false;
  auto nr = verif::RunNet(ps, no);
  if (both && swap) std::swap(nr.res[0], nr.res[1]);
  return nr;
}
static void Ub(Case& c, const Args& a, Rng& g) {
  World w(a.tmp);
  for (auto& k : w.kb) k = PickKb(g);
  w.keyfile = true;
  { std::ofstream f(w.S / "key.bin", std::ios::binary); for (int k = 0; k < 32; ++k) f.put((char)(g() % 255 + 1)); }
  Gen G = MakeKeys(g, R(g, 1, 2), R(g, 2, 12), g() % 8);
  std::vector<int> ids[2];
  for (int p = 0; p < 2; ++p) {
    ids[p] = PickIds(g, G.universe, R(g, 1, 12), g() % 3 == 0);
    w.sd[p] = MakeSide(g, G, ids[p], p ? "c" : "s", false, 1, false);
    WriteCsv(w.in(p), w.sd[p].t);
    c.add(TableEv(w, p, ids[p]));
  }
  On o;
  int k = g() % 4;
  o.sg = k != 1; o.cg = k != 2;
  o.align = g() % 4 != 0;
  o.join = g() % 6;
  o.left = R(g, 1, 2);
  if (g() % 4 == 0) o.nrep = "NA";
  bool swap = g() % 2;
  json v, vs = json::array();
  // an entry point that gives no report: the counts are those the trace expects
  auto on = [&](verif::NetResult nr, bool full) {
    json vv = v;
    vs.push_back({full ? "full" : "online", vv, nr.res[0].value("err", ""), nr.res[1].value("err", "")});
    json e0;
    for (auto& r : nr.res) if (r["st"] == "ok" && r["v"].contains("norep")) r["v"] = {{"orig", -9}, {"okey", -9}, {"inter", -9}, {"ikey", -9}};
    OnEv(c, w, nr, o, {}, full);
  };
  auto off = [&](const char* op, UC::Mode m, bool both) {
    auto nr = ActVia(w, m, o, g, both, both && swap, v);
    vs.push_back({op, v});
    for (auto& r : nr.res) if (r["st"] == "ok" && r["v"].contains("norep")) r["v"] = {{"orig", -9}, {"inter", -1}};
    Off(c, op, nr, {});
  };
  int how = g() % 3;
  if (how == 0) on(ActVia(w, UC::MODE_FULL, o, g, true, swap, v), true);
  else {
    if (how == 1) off("offline", UC::MODE_OFFLINE, true);
    else { off("gen", UC::MODE_OFFLINE_GEN_CACHE, false); off("transfer", UC::MODE_OFFLINE_TRANSFER_CACHE, true); }
    on(ActVia(w, UC::MODE_ONLINE, o, g, true, swap, v), false);
  }
  c.in = {{"via", vs}, {"swap", swap}};
}
// ---- tasks handed out by Kuscia -----------------------------------------------------------------------------------------------------
static void Kus(Case& c, const Args& a, Rng& g) {
  int n = R(g, 2, 5);
  std::vector<std::string> names;
  std::set<std::string> used;
  while ((int)names.size() < n) { auto w = RandWord(g, R(g, 1, 3)); if (used.insert(w).second) names.push_back(w); }
  bool mixed = g() % 2;
  auto text = [&](int self, const std::function<void(int, psi::LaunchConfig&)>& fill) {
    kuscia::ClusterDefine cd;
    kuscia::TaskInputConfig ti;
    kuscia::AllocatedPorts ap;
    // (everybody may be told of the parties in an order of his own)
    std::vector<int> told(n);
    for (int i = 0; i < n; ++i) told[i] = i;
    if (mixed) std::shuffle(told.begin(), told.end(), g);
    for (int i : told) {
      auto* p = cd.add_parties();
      p->set_name(names[i]);
      auto* s = p->add_services();
      s->set_port_name("psi");
      s->add_endpoints("host" + std::to_string(i) + ":80");
      if (g() % 2) s->add_endpoints("other:1");
      fill(i, (*ti.mutable_sf_psi_config_map())[names[i]]);
    }
    cd.set_self_party_idx(std::find(told.begin(), told.end(), self) - told.begin());
    auto* pt = ap.add_ports();
    pt->set_port(1000 + self);
    if (g() % 2) ap.add_ports()->set_port(7);
    json d = {{"task_id", "t" + std::to_string(self)}, {"task_cluster_def", AsJson(cd)}, {"task_input_config", AsJson(ti)}, {"allocated_ports", AsJson(ap)}};
    return d.dump();
  };
  for (int self = 0; self < n; ++self) {
    auto k = psi::FromKusciaConfig(text(self, [&](int i, psi::LaunchConfig& lc) { lc.mutable_psi_config()->add_keys("key" + std::to_string(i)); }));
    json ids = json::array(), hosts = json::array();
    auto nameIdx = [&](const std::string& s) { for (int i = 0; i < n; ++i) if (names[i] == s) return i + 1; return 0; };
    for (auto& p : k.launch_config.link_config().parties()) { ids.push_back(nameIdx(p.id())); hosts.push_back(p.host()); }
    auto& pc = k.launch_config.psi_config();
    json e = {{"e", "Kus"}, {"p", self + 1}, {"task", k.task_id}, {"self", nameIdx(k.launch_config.self_link_party())}, {"ids", ids}, {"hosts", hosts},
              {"keys", std::vector<std::string>(pc.keys().begin(), pc.keys().end())}};
    c.add(e);
    // the place on the link that this description gives each party
    json ranks = json::array();
    for (int q = 0; q <= n; ++q) {
      int got = -1;
      yacl::link::BrpcHook() = [&](const yacl::link::ContextDesc&, size_t r) { got = (int)r; return LinkP(); };
      try { psi::LinkResource(q < n ? names[q] : std::string("nobody"), yacl::link::ContextDesc(k.launch_config.link_config())).Acquire(); }
      catch (const std::exception&) { got = -2; }
      ranks.push_back(got);
    }
    c.add({{"e", "Place"}, {"ranks", ranks}});
  }
  c.in = {{"n", n}, {"names", names}};
}
// ---- private look-up tasks -------------------------------------------------------------------------------------------------------------
static void Pir(Case& c, Rng& g) {
  auto w = [&](const char* pre) { return g() % 4 ? pre + RandWord(g, 3) : std::string(); };
  static const std::vector<std::string> lv = {"all", "debug", "info", "warning", "error", "off", "", "loud", "Info"};
  std::string level = lv[g() % lv.size()];
  auto num = [&] { return g() % 3 ? R(g, 1, 50) : 0; };
  json q;
  g_opt = json::object();
  g_rc = g() % 5 == 0 ? R(g, 1, 3) : 0;
  g_hits = R(g, 0, 9);
  json want;
  bool thrown = false;
  long rep = -1;
  int kind = g() % 4;
  auto attempt = [&](auto fn) { try { rep = fn().match_cnt(); } catch (const std::exception&) { thrown = true; } };
  if (kind == 0) {
    psi::ApsiReceiverConfig r;
    want = {{"call", "receiver"}, {"threads", num()}, {"log_level", level}, {"log_file", w("l")}, {"silent", g() % 2 == 0}, {"query_file", w("q")}, {"output_file", w("o")},
            {"params_file", w("p")}, {"channel", "yacl"}, {"bucketize", g() % 2 == 0}, {"bucket_cnt", num()}, {"batch", num()}};
    r.set_threads(want["threads"]); r.set_log_level(level); r.set_log_file(want["log_file"]); r.set_silent(want["silent"]); r.set_query_file(want["query_file"]);
    r.set_output_file(want["output_file"]); r.set_params_file(want["params_file"]); r.set_experimental_enable_bucketize(want["bucketize"]);
    r.set_experimental_bucket_cnt(want["bucket_cnt"]); r.set_query_batch_size(want["batch"]);
    attempt([&] { return psi::RunPir(r, nullptr); });
  } else if (kind == 1) {
    psi::ApsiSenderConfig r;
    want = {{"call", "sender"}, {"threads", num()}, {"log_level", level}, {"log_file", w("l")}, {"silent", g() % 2 == 0}, {"nonce", num()}, {"compress", g() % 2 == 0},
            {"channel", "yacl"}, {"db_file", w("d")}, {"source_file", w("s")}, {"params_file", w("p")}, {"sdb_out_file", w("o")}, {"save_db_only", g() % 2 == 0},
            {"bucketize", g() % 2 == 0}, {"bucket_cnt", num()}, {"bucket_folder", w("f")}, {"procs", num()}, {"groups", num()}};
    r.set_threads(want["threads"]); r.set_log_level(level); r.set_log_file(want["log_file"]); r.set_silent(want["silent"]); r.set_nonce_byte_count(want["nonce"]);
    r.set_compress(want["compress"]); r.set_db_file(want["db_file"]); r.set_source_file(want["source_file"]); r.set_params_file(want["params_file"]);
    r.set_sdb_out_file(want["sdb_out_file"]); r.set_save_db_only(want["save_db_only"]); r.set_experimental_enable_bucketize(want["bucketize"]);
    r.set_experimental_bucket_cnt(want["bucket_cnt"]); r.set_experimental_bucket_folder(want["bucket_folder"]);
    r.set_experimental_db_generating_process_num(want["procs"]); r.set_experimental_bucket_group_cnt(want["groups"]);
    attempt([&] { return psi::RunPir(r, nullptr); });
  } else {
    std::vector<std::string> labels;
    for (int i = R(g, 0, 3); i > 0; --i) labels.push_back(RandWord(g, 2));
    json base = {{"threads", num()}, {"log_level", level}, {"log_file", w("l")}, {"params_file", w("p")}, {"result_file", w("r")}, {"tmp", w("t")}, {"key", w("k")},
                 {"labels", labels}, {"curve", R(g, 1, 3)}, {"skip", g() % 2 == 0}};
    auto common = [&](auto& r) {
      r.set_threads(base["threads"]); r.set_log_level(level); r.set_log_file(base["log_file"]); r.set_params_file(base["params_file"]);
      r.set_result_file(base["result_file"]); r.set_tmp_folder(base["tmp"]); r.set_key(base["key"]); r.set_curve_type((psi::CurveType)(int)base["curve"]);
      r.set_skip_count_check(base["skip"]);
      for (auto& x : labels) r.add_labels(x);
    };
    if (kind == 2) {
      psi::DkPirReceiverConfig r;
      common(r);
      base["call"] = "query"; base["query_file"] = w("q");
      r.set_query_file(base["query_file"]);
      attempt([&] { return psi::RunDkPir(r, nullptr); });
    } else {
      psi::DkPirSenderConfig r;
      common(r);
      int m = g() % 3;
      r.set_mode((psi::DkPirSenderConfig::Mode)m);
      base["call"] = m == 1 ? "offline" : m == 2 ? "online" : "none";
      base["source_file"] = w("s"); base["value_sdb"] = w("v"); base["count_sdb"] = w("c"); base["secret"] = w("x");
      r.set_source_file(base["source_file"]); r.set_value_sdb_out_file(base["value_sdb"]); r.set_count_sdb_out_file(base["count_sdb"]); r.set_secret_key_file(base["secret"]);
      attempt([&] { return psi::RunDkPir(r, nullptr); });
    }
    want = base;
  }
  bool none = g_opt.empty();
  if (none) g_opt["call"] = "none";
  psi::apsi_wrapper::cli::SenderOptions ds;
  psi::apsi_wrapper::cli::ReceiverOptions dr;
  c.in = {{"rc", g_rc}, {"hits", g_hits}, {"dflt", {{"nonce", ds.nonce_byte_count}, {"procs", ds.experimental_db_generating_process_num},
          {"groups", ds.experimental_bucket_group_cnt}, {"batch", dr.query_batch_size}}}};
  c.add({{"e", "Opt"}, {"want", want}, {"got", g_opt}, {"thrown", thrown}, {"rep", rep}, {"known", level != "" && level != "loud" && level != "Info"}});
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  Quiet();
  int mult = a.thorough ? 10 : 1;
  auto many = [&](const char* what, int n, std::function<void(Case&, Rng&)> fn) {
    if (a.mode != what) return;
    for (int i = 0; i < n * mult; ++i)
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) { Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(what)); fn(c, g); });
  };
  many("two", 700, [&](Case& c, Rng& g) { bool d = g() % 3 == 0; Two(c, a, g, d); });
  many("legacy", 160, [&](Case& c, Rng& g) { Legacy(c, a, g); });
  many("ub", 300, [&](Case& c, Rng& g) { Ub(c, a, g); });
  many("kuscia", 60, [&](Case& c, Rng& g) { Kus(c, a, g); });
  many("pir", 400, [&](Case& c, Rng& g) { Pir(c, g); });
  run.finish();
}
