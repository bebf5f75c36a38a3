// Two-party runs of the v2 protocols: configurations, tables, one recorded run.
#pragma once
#include "psi_env.h"
#include "psi/algorithm/ecdh/receiver.h"
#include "psi/algorithm/ecdh/sender.h"
#include "psi/algorithm/kkrt/receiver.h"
#include "psi/algorithm/kkrt/sender.h"
#include "psi/algorithm/rr22/receiver.h"
#include "psi/algorithm/rr22/sender.h"
#include "psi/utils/table_utils.h"
#ifdef VERIF_THRESHOLD
#include "psi/apps/psi_launcher/factory.h"
#include "experiment/psi/threshold_ecdh_psi/receiver.h"
#include "experiment/psi/threshold_ecdh_psi/sender.h"
#endif
using namespace drv;
using namespace env;
namespace v2 = psi::v2;

struct Opt {
  std::string proto = "ecdh";
  int curve = 1;
  long batch = 0;       // ecdh batch size
  long bucket = 0;      // kkrt / rr22 bucket size
  bool low = false;     // rr22 low communication mode
  bool bc = true;       // both parties get the result
  bool align = true;
  int join = 0;         // 0..5
  int left = 1;         // 1 receiver, 2 sender
  bool uniq[2] = {false, false};  // keys_unique [sender, receiver]
  bool digest = false;
  std::string null_rep;
  long thr = 0;         // most common keys anyone may learn; 0: all
  long kb[2] = {0, 0};  // keys per batch read from the key file [sender, receiver]; 0: as built
  std::string rec[2];   // recovery folders
  std::function<void(v2::PsiConfig&)> tweak[2];  // last changes to the configuration of the sender, the receiver
};
static const char* kJoin[] = {"INNER", "INNER", "LEFT", "RIGHT", "FULL", "DIFF"};

struct Side {
  Table t;
  std::vector<std::string> keys;
};

// the file with the two counts: what it says, or nothing
static json CountFile(const std::string& p) {
  std::ifstream f(p);
  std::string h, l, x;
  if (!f) return json::array();
  std::getline(f, h); std::getline(f, l); std::getline(f, x);
  long a = -1, b = -1;
  if (h != "real_count,final_count" || sscanf(l.c_str(), "%ld,%ld", &a, &b) != 2 || !x.empty()) return json{-1, -1};
  return json{a, b};
}
static v2::PsiConfig Conf(const Opt& o, bool recv, const Side& sd, const std::string& in, const std::string& out) {
  v2::PsiConfig c;
  auto* p = c.mutable_protocol_config();
  p->set_role(recv ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  p->set_broadcast_result(o.bc);
  if (o.proto == "ecdh") {
    p->set_protocol(v2::PROTOCOL_ECDH);
    p->mutable_ecdh_config()->set_curve((psi::CurveType)o.curve);
    if (o.batch) p->mutable_ecdh_config()->set_batch_size(o.batch);
  } else if (o.proto == "kkrt") {
    p->set_protocol(v2::PROTOCOL_KKRT);
    p->mutable_kkrt_config()->set_bucket_size(o.bucket);
  } else {
    p->set_protocol(v2::PROTOCOL_RR22);
    p->mutable_rr22_config()->set_bucket_size(o.bucket);
    p->mutable_rr22_config()->set_low_comm_mode(o.low);
  }
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(in);
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(out);
  for (auto& k : sd.keys) c.add_keys(k);
  c.set_disable_alignment(!o.align);
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)o.join);
  c.set_left_side(o.left == 1 ? v2::ROLE_RECEIVER : v2::ROLE_SENDER);
  c.mutable_input_attr()->set_keys_unique(o.uniq[recv]);
  c.set_check_hash_digest(o.digest);
  if (!o.null_rep.empty()) c.mutable_output_attr()->set_csv_null_rep(o.null_rep);
  if (!o.rec[recv].empty()) {
    c.mutable_recovery_config()->set_enabled(true);
    c.mutable_recovery_config()->set_folder(o.rec[recv]);
  }
  if (o.thr) { c.set_intersection_threshold(o.thr); c.set_count_path(out + ".cnt"); }
  if (o.tweak[recv]) o.tweak[recv](c);
  return c;
}
static std::unique_ptr<psi::AbstractPsiParty> MakeParty(const v2::PsiConfig& c, std::shared_ptr<yacl::link::Context> l) {
  bool recv = c.protocol_config().role() == v2::ROLE_RECEIVER;
  switch (c.protocol_config().protocol()) {
    case v2::PROTOCOL_ECDH:
#ifdef VERIF_THRESHOLD
      return psi::createPsiParty(c, l);
#endif
      if (recv) return std::make_unique<psi::ecdh::EcdhPsiReceiver>(c, l);
      return std::make_unique<psi::ecdh::EcdhPsiSender>(c, l);
    case v2::PROTOCOL_KKRT:
      if (recv) return std::make_unique<psi::kkrt::KkrtPsiReceiver>(c, l);
      return std::make_unique<psi::kkrt::KkrtPsiSender>(c, l);
    default:
      if (recv) return std::make_unique<psi::rr22::Rr22PsiReceiver>(c, l);
      return std::make_unique<psi::rr22::Rr22PsiSender>(c, l);
  }
}
// how many keys a party reads and treats at a time (the hook of psi/utils/table_utils.h)
static void KeyBatch(long n) {
  if (n) psi::kBatchSize = (size_t)n;
}
static long PickKb(Rng& g) { return std::vector<long>{0, 0, 0, 1, 2, 3, 4, 5}[g() % 8]; }
// ---- tables -------------------------------------------------------------------------------------------------------
struct Gen {
  int nk = 1;             // key columns
  int universe = 8;
  int style = 0;
  std::vector<std::vector<std::string>> keys;  // key tuple per key id (1-based: keys[id-1])
};
static Gen MakeKeys(Rng& g, int nk, int universe, int style) {
  Gen G;
  G.nk = nk; G.universe = universe; G.style = style;
  std::set<std::string> seen;
  while ((int)G.keys.size() < universe) {
    std::vector<std::string> k;
    for (int i = 0; i < nk; ++i) {
      std::string w;
      switch (style) {
        case 0: w = RandWord(g, R(g, 1, 12)); break;
        case 1: w = std::to_string(R(g, 0, universe * 3)); break;                 // decimal numbers of mixed width
        case 2: w = std::string(R(g, 0, 2), '0') + std::to_string(R(g, 0, 99)); break;  // leading zeros
        case 3: w = RandWord(g, 1) + std::string(R(g, 1, 3), " -_.:+"[g() % 6]) + RandWord(g, R(g, 1, 3)); break;
        case 4: w = std::string(R(g, 1, 40), 'a') + (g() % 2 ? "B" : "b"); break;  // long common prefixes, case
        case 5: { static const char* u[] = {"é", "中文", "ß", "Ω", "z", "A", "~", "!"}; w = std::string(u[g() % 8]) + std::to_string(g() % 40); break; }
        case 6: w = RandWord(g, R(g, 60, 200)); break;
        case 7: w = std::to_string(100000000 + (long)(g() % 899999999)); break;
      }
      k.push_back(w);
    }
    std::string j = Join(k);
    if (seen.insert(j).second) G.keys.push_back(k);
  }
  return G;
}
// ids: key id of each row, in row order
static Side MakeSide(Rng& g, const Gen& G, const std::vector<int>& ids, const std::string& tag, bool same_names, int pos, bool twin_rows, int fixed_np = -1) {
  Side s;
  int np = fixed_np >= 0 ? fixed_np : R(g, 0, 2);
  std::vector<std::string> cols;
  std::vector<int> kcol;
  // key columns at position `pos` among the payload columns
  for (int i = 0; i < np; ++i) cols.push_back(tag + "_p" + std::to_string(i));
  int at = pos == 0 ? 0 : R(g, 0, np);
  std::vector<std::string> kn;
  for (int i = 0; i < G.nk; ++i) kn.push_back((same_names ? std::string("id") : tag + "id") + std::to_string(i));
  cols.insert(cols.begin() + at, kn.begin(), kn.end());
  s.t.cols = cols;
  s.keys = kn;
  int n = 0;
  for (int id : ids) {
    ++n;
    std::vector<std::string> row;
    for (int i = 0; i < np; ++i) row.push_back(twin_rows ? RandWord(g, 1) : tag + RandWord(g, 2) + std::to_string(n));
    auto& k = G.keys[id - 1];
    row.insert(row.begin() + at, k.begin(), k.end());
    s.t.rows.push_back(row);
  }
  return s;
}
static std::vector<int> PickIds(Rng& g, int universe, int n, bool unique) {
  std::vector<int> v;
  if (unique) {
    for (int i = 1; i <= universe; ++i) v.push_back(i);
    std::shuffle(v.begin(), v.end(), g);
    if ((int)v.size() > n) v.resize(n);
  } else
    while ((int)v.size() < n) v.push_back(R(g, 1, universe));
  return v;
}
// ---- one run ------------------------------------------------------------------------------------------------------
static void Record(Case& c, const Opt& o, const Side sd[2], const std::vector<int> ids[2], const Scratch& S, const verif::NetResult& nr, const std::vector<std::string>& outs, const char* name = "End") {
  std::map<std::string, int> rowid[2];
  json tab[2];
  for (int p = 0; p < 2; ++p) {
    tab[p] = json::array();
    for (size_t i = 0; i < sd[p].t.rows.size(); ++i) {
      auto it = rowid[p].emplace(Join(sd[p].t.rows[i]), rowid[p].size() + 1).first;
      tab[p].push_back({{"k", ids[p][i]}, {"row", it->second}});
    }
  }
  c.in = {{"proto", o.proto}, {"curve", o.curve}, {"batch", o.batch}, {"bucket", o.bucket}, {"low", o.low}, {"bc", o.bc}, {"align", o.align},
          {"join", kJoin[o.join]}, {"left", o.left == 1 ? "r" : "s"}, {"s", tab[0]}, {"r", tab[1]},
          {"kb", json::array({o.kb[0], o.kb[1]})}, {"thr", o.thr}, {"us", o.uniq[0]}, {"ur", o.uniq[1]}, {"digest", o.digest}};
  for (int p = 0; p < 2; ++p) {
    json e = {{"e", name}, {"p", p ? "r" : "s"}, {"st", nr.res[p]["st"]}};
    if (nr.res[p]["st"] != "ok") { e["err"] = nr.res[p].value("err", ""); c.add(e); continue; }
    for (auto& [k, v] : nr.res[p]["v"].items()) e[k] = v;
    Table t;
    bool ex = ReadCsv(outs[p], t);
    e["out"] = ex;
    if (o.thr) e["cnt"] = CountFile(outs[p] + ".cnt");
    json rows = json::array();
    e["hdr"] = !ex || t.cols == sd[p].t.cols;
    std::string nrep = o.null_rep.empty() ? "NULL" : o.null_rep;
    std::string na = Join(std::vector<std::string>(sd[p].t.cols.size(), nrep));
    for (auto& r : t.rows) {
      if (rows.size() > 20000 + 2 * (sd[0].t.rows.size() + sd[1].t.rows.size())) { rows.push_back(-1); break; }  // no end to it
      std::string j = Join(r);
      auto it = rowid[p].find(j);
      rows.push_back(it != rowid[p].end() ? it->second : j == na ? 0 : -1);
    }
    e["rows"] = rows;
    c.add(e);
  }
  if (std::string(name) == "End") c.add({{"e", "Zip"}});
}
struct Fault { int victim = -1; long at = -1; long cut = -1; bool record = false; };
static verif::NetResult RunIn(const Scratch& S, Case& c, const Opt& o, Rng& g, const Side sd[2], const std::vector<int> ids[2], bool swap_rank, bool delays, Fault ft = {}, const char* name = "End") {
  std::vector<std::string> in = {S / "s.csv", S / "r.csv"}, out = {S / "s.out.csv", S / "r.out.csv"};
  for (int p = 0; p < 2; ++p) {
    Table old;
    if (!ReadCsv(in[p], old) || old.cols != sd[p].t.cols || old.rows != sd[p].t.rows) WriteCsv(in[p], sd[p].t);
  }
  auto mk = [&](int p) {
    verif::Party P;
    auto conf = Conf(o, p, sd[p], in[p], out[p]);
    long kb = o.kb[p];
    P.fn = [conf, kb](std::shared_ptr<yacl::link::Context> l) { KeyBatch(kb); return ReportJson(MakeParty(conf, l)->Run()); };
    if (ft.victim == p) P.crash_at = ft.at;
    return P;
  };
  verif::NetOpt no;
  no.record = ft.record;
  no.cut_after = ft.cut;
  no.timeout_ms = 25000;
  unsigned ds = g();
  if (delays) {
    auto dr = std::make_shared<Rng>(ds);
    no.delay = [dr](const verif::Frame&) { if ((*dr)() % 4 == 0) usleep((*dr)() % 3000); };
  }
  std::vector<verif::Party> ps;
  ps.push_back(mk(swap_rank ? 1 : 0));
  ps.push_back(mk(swap_rank ? 0 : 1));
  auto nr = verif::RunNet(ps, no);
  if (swap_rank) std::swap(nr.res[0], nr.res[1]);
  Record(c, o, sd, ids, S, nr, out, name);
  return nr;
}

static void RunCase(Case& c, const Args& a, const Opt& o, Rng& g, const Side sd[2], const std::vector<int> ids[2], bool swap_rank, bool delays) {
  Scratch S(a.tmp);
  RunIn(S, c, o, g, sd, ids, swap_rank, delays);
}

