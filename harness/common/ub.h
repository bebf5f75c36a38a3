// Unbalanced PSI runs: configurations, one stage of a history, what it leaves behind.
#pragma once
#include "psi2.h"
#include "psi/algorithm/ecdh/ub_psi/client.h"
#include "psi/algorithm/ecdh/ub_psi/server.h"
#ifdef VERIF_THRESHOLD
#include "experiment/psi/threshold_ub_psi/client.h"
#include "experiment/psi/threshold_ub_psi/server.h"
using UbServer = psi::ecdh::ThresholdEcdhUbPsiServer;
using UbClient = psi::ecdh::ThresholdEcdhUbPsiClient;
#else
using UbServer = psi::ecdh::EcdhUbPsiServer;
using UbClient = psi::ecdh::EcdhUbPsiClient;
#endif
using UC = v2::UbPsiConfig;
struct Srv : UbServer {
  using UbServer::UbServer;
  void Set(int curve, size_t batch) { psi_options_.curve_type = (psi::CurveType)curve; if (batch) psi_options_.batch_size = batch; }
};
struct Cli : UbClient {
  using UbClient::UbClient;
  void Set(int curve, size_t batch) { psi_options_.curve_type = (psi::CurveType)curve; if (batch) psi_options_.batch_size = batch; }
};
// everything one history keeps on disk
struct World {
  Scratch S;
  int curve = 4;
  long batch[2] = {0, 0};
  long kb[2] = {0, 0};
  bool keyfile = false;
  Side sd[2];
  std::map<std::string, int> rowid[2];
  explicit World(const std::string& tmp) : S(tmp) {}
  std::string in(int p) const { return S / (p ? "c.csv" : "s.csv"); }
  std::string out(int p) const { return S / (p ? "c.out.csv" : "s.out.csv"); }
};
inline std::function<void()> g_before;       // in the party's process, around its run
inline std::function<void(json&)> g_after;
struct On { bool sg = true, cg = true, align = true; int join = 1, left = 1; std::string nrep; long thr = 0; };
static UC UbConf(const World& w, int p, UC::Mode m, const On& o) {
  UC c;
  c.set_mode(m);
  c.set_role(p ? v2::ROLE_CLIENT : v2::ROLE_SERVER);
  c.mutable_input_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_input_config()->set_path(w.in(p));
  c.mutable_output_config()->set_type(v2::IO_TYPE_FILE_CSV);
  c.mutable_output_config()->set_path(w.out(p));
  for (auto& k : w.sd[p].keys) c.add_keys(k);
  c.set_cache_path(w.S / (p ? "cache-c" : "cache-s"));
  if (!p && w.keyfile) c.set_server_secret_key_path(w.S / "key.bin");
  c.set_server_get_result(o.sg);
  c.set_client_get_result(o.cg);
  c.set_disable_alignment(!o.align);
  c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)o.join);
  c.set_left_side(o.left == 1 ? v2::ROLE_SERVER : v2::ROLE_CLIENT);
  if (o.thr) { c.set_intersection_threshold(o.thr); c.set_count_path(w.out(p) + ".cnt"); }
  if (!o.nrep.empty()) c.mutable_output_attr()->set_csv_null_rep(o.nrep);
  return c;
}
static json TableEv(World& w, int p, const std::vector<int>& ids) {
  json t = json::array();
  for (size_t i = 0; i < ids.size(); ++i)
    t.push_back({{"k", ids[i]}, {"row", w.rowid[p].emplace(Join(w.sd[p].t.rows[i]), w.rowid[p].size() + 1).first->second}});
  return {{"e", "Input"}, {"p", p ? "c" : "s"}, {"t", t}};
}
static verif::NetResult Act(World& w, UC::Mode m, const On& o, Fault ft = {}, bool both = true, bool swap = false) {
  std::vector<verif::Party> ps(both ? 2 : 1);
  for (int p = 0; p < (int)ps.size(); ++p) {
    auto conf = UbConf(w, p, m, o);
    int curve = w.curve; long b = w.batch[p], kb = w.kb[p];
    auto& P = ps[both && swap ? 1 - p : p];
    P.fn = [conf, curve, b, kb, p, both](std::shared_ptr<yacl::link::Context> l) {
      if (!both) l = nullptr;
      KeyBatch(kb);
      if (g_before) g_before();
      psi::PsiResultReport r;
#ifdef VERIF_THRESHOLD
      if (curve == 2 && !b) r = psi::createUbPsiParty(conf, l)->Run();
      else
#endif
      if (p) { Cli x(conf, l); x.Set(curve, b); r = x.Run(); }
      else { Srv x(conf, l); x.Set(curve, b); r = x.Run(); }
      json j = ReportJson(r);
      if (g_after) g_after(j);
      return j;
    };
    if (ft.victim == p) P.crash_at = ft.at;
  }
  verif::NetOpt no;
  no.timeout_ms = 25000;
  no.record = ft.record;
  no.cut_after = ft.cut;
  auto nr = verif::RunNet(ps, no);
  if (both && swap) std::swap(nr.res[0], nr.res[1]);
  return nr;
}
static void Off(Case& c, const char* op, const verif::NetResult& nr, const Fault& ft) {
  json e = {{"e", "Off"}, {"op", op}, {"s", nr.res[0]["st"]}, {"c", nr.res.size() > 1 ? nr.res[1]["st"] : json("ok")},
            {"fault", ft.cut >= 0 ? "net" : ft.victim < 0 ? "none" : ft.victim ? "c" : "s"}, {"n", json::array()}};
  for (auto& r : nr.res) if (r["st"] == "ok") e["n"].push_back(json::array({r["v"]["orig"], r["v"]["inter"]}));
  for (auto& r : nr.res) if (r["st"] == "err") e["err"] = r.value("err", "");
  c.add(e);
}
// full: the run also did the offline part
static void OnEv(Case& c, World& w, const verif::NetResult& nr, const On& o, const Fault& ft, bool full) {
  json e = {{"e", "On"}, {"full", full}, {"s", nr.res[0]["st"]}, {"c", nr.res[1]["st"]}, {"fault", ft.cut >= 0 ? "net" : ft.victim < 0 ? "none" : ft.victim ? "c" : "s"},
            {"sg", o.sg}, {"cg", o.cg}, {"align", o.align}, {"join", kJoin[o.join]}, {"left", o.left == 1 ? "s" : "c"}};
  json outs = json::array();
  for (int p = 0; p < 2; ++p) {
    json x = {{"p", p ? "c" : "s"}, {"st", nr.res[p]["st"]}};
    if (nr.res[p]["st"] != "ok") { if (nr.res[p]["st"] == "err") x["err"] = nr.res[p].value("err", ""); outs.push_back(x); continue; }
    for (auto& [k, v] : nr.res[p]["v"].items()) x[k] = v;
    Table t;
    bool ex = ReadCsv(w.out(p), t);
    x["out"] = ex;
    if (o.thr) x["cnt"] = CountFile(w.out(p) + ".cnt");
    x["hdr"] = !ex || t.cols == w.sd[p].t.cols;
    std::string na = Join(std::vector<std::string>(w.sd[p].t.cols.size(), o.nrep.empty() ? "NULL" : o.nrep));
    json rows = json::array();
    for (auto& r : t.rows) {
      if (rows.size() > 20000) { rows.push_back(-1); break; }  // no end to it
      auto it = w.rowid[p].find(Join(r));
      rows.push_back(it != w.rowid[p].end() ? it->second : Join(r) == na ? 0 : -1);
    }
    x["rows"] = rows;
    outs.push_back(x);
  }
  e["end"] = outs;
  c.add(e);
}
