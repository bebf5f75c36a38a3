// Multi-party and older protocols: results, files, messages.
#include "mp.h"
#include "psi/algorithm/ecdh/ecdh_operator.h"
#include "psi/algorithm/kkrt/kkrt_operator.h"
#include "psi/algorithm/nty/nty_mp_psi.h"
#include "psi/algorithm/rr22/rr22_operator.h"
#include "psi/cryptor/cryptor_selector.h"
#include "psi/legacy/bucket_psi.h"
#include "psi/legacy/dp_psi/dp_psi.h"
#include "psi/legacy/memory_psi.h"
#include "psi/utils/index_store.h"
#include "yacl/crypto/hash/hash_utils.h"
static psi::MemoryPsiConfig MemConf(int type, int recv, bool bc, int curve) {
  psi::MemoryPsiConfig c;
  c.set_psi_type((psi::PsiType)type);
  c.set_receiver_rank(recv);
  c.set_broadcast_result(bc);
  if (curve) c.set_curve_type((psi::CurveType)curve);
  return c;
}
// ---- MemoryPsi ------------------------------------------------------------------------------------------------
static void MemCase(Case& c, Rng& g, int type, int n, int uni, const Sets& sets) {
  int recv = R(g, 0, n - 1);
  bool bc = g() % 2;
  int curve = type == psi::KKRT_PSI_NPC || type == psi::KKRT_PSI_2PC ? 0 : std::vector<int>{0, 1, 2, 3}[g() % 4];
  auto w = Words(g, uni, R(g, 4, 20), "");
  std::map<std::string, int> id;
  for (int i = 0; i < uni; ++i) id[w[i]] = i + 1;
  c.in = {{"sets", sets}, {"recv", recv}, {"bc", bc}, {"type", psi::PsiType_Name((psi::PsiType)type)}};
  auto m = RunParties(n, false, [&](int r, LinkP l) {
    std::vector<std::string> items;
    for (int k : sets[r]) items.push_back(w[k - 1]);
    psi::MemoryPsi p(MemConf(type, recv, bc, curve), l);
    return IdsOf(p.Run(items), id);
  });
  Ends(c, m);
}
// ---- three parties: what crosses the links ------------------------------------------------------------------------
static void Wire3(Case& c, Rng& g) {
  bool wide = g() % 2;
  int uni = wide ? R(g, 24, 28) : R(g, 2, 10), master = R(g, 0, 2), curve = std::vector<int>{1, 2, 3}[g() % 3];
  Sets sets(3);
  for (auto& v : sets) v = Pick(g, uni, wide ? R(g, 20, uni) : R(g, 1, uni));
  std::string role(3, ' ');
  role[master] = 'c'; role[(master + 1) % 3] = 'a'; role[(master + 2) % 3] = 'b';
  std::map<std::string, std::vector<int>> of;
  for (int p = 0; p < 3; ++p) of[std::string(1, role[p])] = sets[p];
  c.in = {{"sets", of}, {"wide", wide}};
  auto go = [&](const std::vector<std::string>& w) {
    return RunParties(3, true, [&](int r, LinkP l) {
      std::vector<std::string> items;
      for (int k : sets[r]) items.push_back(w[k - 1]);
      psi::MemoryPsi p(MemConf(psi::ECDH_PSI_3PC, master, false, curve), l);
      return json(p.Run(items).size());
    });
  };
  auto w = Words(g, uni, 13, "a");
  Win left[3];
  for (int k = 0; k < 3; ++k) {
    auto m = go(w);
    if (!m.ok()) { Ends(c, m); return; }
    auto draw = g_draw;
    if (k == 0) {
      // every masking of every key by one candidate key per party
      std::map<std::string, std::pair<std::string, int>> term;
      for (int x = 0; x < uni; ++x) term[w[x].substr(0, 12)] = {"clear", x + 1};
      auto tail = [](const std::string& t) { return t.substr(t.size() - 12); };
      std::vector<int> who = {(master + 1) % 3, (master + 2) % 3, master};
      std::function<void(size_t, std::string, std::vector<yacl::crypto::EcPoint>)> walk;
      auto cr0 = psi::CreateEccCryptor((psi::CurveType)curve);
      walk = [&](size_t n, std::string mask, std::vector<yacl::crypto::EcPoint> pts) {
        if (n == 3) {
          for (int x = 0; x < uni; ++x) {
            auto s = cr0->SerializeEcPoint(pts[x]);
            term.emplace(tail(std::string(s.data<char>(), s.size())), std::make_pair(mask.empty() ? "clear" : mask, x + 1));
          }
          return;
        }
        walk(n + 1, mask, pts);
        for (auto& d : draw[who[n]]) {
          auto cr = psi::CreateEccCryptor((psi::CurveType)curve);
          cr->SetPrivateKey(absl::MakeSpan((const uint8_t*)d.data(), 32));
          walk(n + 1, mask + role[who[n]], cr->EccMask(pts));
        }
      };
      walk(0, "", cr0->HashInputs(w));
      for (auto& msg : m.log) {
        std::map<std::string, std::vector<int>> xs;
        for (size_t at = 0; at + 12 <= msg.bytes.size(); ++at) {
          auto it = term.find(msg.bytes.substr(at, 12));
          if (it != term.end()) xs[it->second.first].push_back(it->second.second);
        }
        for (auto& [k2, v] : xs) c.add({{"e", "Msg"}, {"f", std::string(1, role[msg.src])}, {"t", std::string(1, role[msg.dst])}, {"m", k2}, {"xs", v}});
      }
      c.add({{"e", "All"}});
    }
    for (int p = 0; p < 3; ++p) {
      Win x = WindowsOf(m.log, p, {});
      if (!k) left[p] = x;
      else { Win y; for (auto z : left[p]) if (x.count(z)) y.insert(z); left[p] = y; }
    }
  }
  auto m = go(Words(g, uni, 13, "b"));
  if (!m.ok()) { Ends(c, m); return; }
  for (int p = 0; p < 3; ++p) for (auto z : WindowsOf(m.log, p, {})) left[p].erase(z);
  for (int p = 0; p < 3; ++p) c.add({{"e", "Stable"}, {"p", std::string(1, role[p])}, {"n", left[p].size()}});
}
// ---- several parties with a helping server -----------------------------------------------------------------------------
static void NtyCase(Case& c, Rng& g, bool wire, int big) {
  int n = R(g, 3, 6);
  int uni = big ? big : wire ? 40 : R(g, 1, 40);
  std::vector<int> rk = Pick(g, n, 3);
  Sets sets = RandSets(g, n, uni, false);
  if (wire) for (auto& v : sets) v = Pick(g, uni, R(g, 5, uni));
  bool bc = !wire && g() % 2;
  int threads = R(g, 1, 3);
  auto go = [&](const std::vector<uint128_t>& w, bool rec) {
    std::map<std::string, int> id;
    for (int i = 0; i < uni; ++i) id[U128(w[i])] = i + 1;
    return RunParties(n, rec, [&](int r, LinkP l) {
      psi::nty::NtyMPsiOptions o(threads, rk[0] - 1, rk[1] - 1, rk[2] - 1, bc);
      o.link_ctx = l;
      std::vector<uint128_t> items;
      for (int k : sets[r]) items.push_back(w[k - 1]);
      psi::nty::NtyMPsi p(o);
      std::vector<std::string> out;
      for (auto v : p.Run(items)) out.push_back(U128(v));
      return IdsOf(out, id);
    });
  };
  auto words = [&] {
    std::vector<uint128_t> w;
    for (auto& s : Words(g, uni, 16, "")) w.push_back(yacl::crypto::Blake3_128(s));
    return w;
  };
  auto w = words();
  if (!wire) {
    c.in = {{"sets", sets}, {"recv", rk[2] - 1}, {"bc", bc}, {"type", "NTY"}, {"aid", rk[0] - 1}, {"helper", rk[1] - 1}};
    Ends(c, go(w, false));
    return;
  }
  c.in = {{"sets", json::array()}, {"recv", 0}, {"bc", false}, {"type", "NTYWIRE"}};
  std::vector<Win> left(n);
  for (int k = 0; k < 3; ++k) {
    auto m = go(k == 2 ? words() : w, true);
    if (!m.ok()) { Ends(c, m); return; }
    for (int p = 0; p < n; ++p) {
      Win x = WindowsOf(m.log, p, {});
      if (!k) left[p] = x;
      else if (k == 1) { Win y; for (auto z : left[p]) if (x.count(z)) y.insert(z); left[p] = y; }
      else for (auto z : x) left[p].erase(z);
    }
  }
  for (int p = 0; p < n; ++p) c.add({{"e", "Stable"}, {"p", p}, {"n", left[p].size()}});
}
// ---- files --------------------------------------------------------------------------------------------------------------
static void BucketCase(Case& c, Rng& g, const std::string& tmp) {
  Scratch S(tmp);
  std::vector<int> types = {psi::ECDH_PSI_NPC, psi::ECDH_PSI_NPC, psi::KKRT_PSI_NPC, psi::ECDH_PSI_3PC, psi::KKRT_PSI_2PC};
  int type = types[g() % types.size()];
  int n = type == psi::ECDH_PSI_3PC ? 3 : type == psi::KKRT_PSI_2PC ? 2 : R(g, 2, 4);
  int uni = R(g, 3, 24), nk = R(g, 1, 2);
  Sets sets = RandSets(g, n, uni, true);
  bool same = g() % 6 == 0;
  if (same) for (auto& v : sets) v = sets[0];
  std::set<std::vector<std::string>> ks;
  int style = g() % 3;
  while ((int)ks.size() < uni) {
    std::vector<std::string> k;
    for (int i = 0; i < nk; ++i) k.push_back(style == 0 ? RandWord(g, R(g, 1, 9)) : style == 1 ? std::to_string(R(g, 0, uni * 2)) : RandWord(g, 2) + " " + RandWord(g, 2));
    ks.insert(k);
  }
  std::vector<std::vector<std::string>> keys(ks.begin(), ks.end());
  int recv = R(g, 0, n - 1), bucket = std::vector<int>{0, 1, 2, 5, 100}[g() % 5];
  bool bc = g() % 2, sort = g() % 2, pre = g() % 2;
  bool sub = g() % 2;  // an output folder that is not there yet
  c.in = {{"sets", sets}, {"recv", recv}, {"bc", bc}, {"sort", sort}, {"n", n}, {"same", same}, {"bucket", bucket}, {"type", psi::PsiType_Name((psi::PsiType)type)}};
  std::vector<Table> tb(n);
  std::vector<std::vector<std::string>> fields(n);
  std::vector<std::string> in(n), out(n);
  for (int p = 0; p < n; ++p) {
    std::vector<std::string> names;
    for (int i = 0; i < nk; ++i) names.push_back("k" + std::to_string(p) + std::to_string(i)), fields[p].push_back(names.back());
    names.push_back("v");
    std::vector<int> ord(nk + 1);
    for (int i = 0; i <= nk; ++i) ord[i] = i;
    std::shuffle(ord.begin(), ord.end(), g);
    for (int i : ord) tb[p].cols.push_back(names[i]);
    for (int k : sets[p]) {
      auto row = keys[k - 1];
      row.push_back("p" + std::to_string(p) + "r" + std::to_string(k));
      std::vector<std::string> r2;
      for (int i : ord) r2.push_back(row[i]);
      tb[p].rows.push_back(r2);
    }
    fs::create_directories(S / std::to_string(p));
    in[p] = S / (std::to_string(p) + "/in.csv");
    out[p] = S / (std::to_string(p) + (sub ? "/o/out.csv" : "/out.csv"));
    WriteCsv(in[p], tb[p]);
  }
  auto m = RunParties(n, false, [&](int r, LinkP l) {
    psi::BucketPsiConfig b;
    b.set_psi_type((psi::PsiType)type);
    b.set_receiver_rank(recv);
    b.set_broadcast_result(bc);
    b.set_bucket_size(bucket);
    if (type != psi::KKRT_PSI_NPC && type != psi::KKRT_PSI_2PC) b.set_curve_type(psi::CURVE_25519);
    b.mutable_input_params()->set_path(in[r]);
    for (auto& f : fields[r]) b.mutable_input_params()->add_select_fields(f);
    b.mutable_input_params()->set_precheck(pre);
    b.mutable_output_params()->set_path(out[r]);
    b.mutable_output_params()->set_need_sort(sort);
    return ReportJson(psi::BucketPsi(b, l).Run());
  });
  for (int p = 0; p < n; ++p) {
    if (m.res[p]["st"] != "ok") { c.add({{"e", "Failed"}, {"p", p}, {"err", m.res[p]["err"]}}); continue; }
    json rows = json::array();
    Table t;
    bool there = ReadCsv(out[p], t);
    int extra = 0;
    for (auto& e : fs::recursive_directory_iterator(S / std::to_string(p)))
      if (e.is_regular_file() && e.path() != in[p] && e.path() != out[p]) ++extra;
    if (there)
      for (auto& r : t.rows) {
        int id = -1;
        for (size_t i = 0; i < tb[p].rows.size(); ++i) if (tb[p].rows[i] == r) id = sets[p][i];
        rows.push_back(id);
      }
    c.add({{"e", "File"}, {"p", p}, {"there", there}, {"cols", !there || t.cols == tb[p].cols}, {"rows", rows}, {"left", extra},
           {"orig", m.res[p]["v"]["orig"]}, {"inter", m.res[p]["v"]["inter"]}});
  }
  c.add({{"e", "Over"}, {"timeouts", m.timeouts}});
}
// ---- the operators ---------------------------------------------------------------------------------------------------------
struct Store : psi::IDataStore {
  std::vector<std::vector<psi::PsiItemData>> b;
  struct Prov : psi::IDataProvider {
    std::vector<psi::PsiItemData> v; size_t at = 0;
    std::vector<psi::PsiItemData> ReadNext(size_t n) override {
      std::vector<psi::PsiItemData> r;
      while (at < v.size() && r.size() < n) r.push_back(v[at++]);
      return r;
    }
    std::vector<psi::PsiItemData> ReadAll() override { return v; }
  };
  size_t GetBucketNum() const override { return b.size(); }
  std::shared_ptr<psi::IDataProvider> Load(size_t t) override { auto p = std::make_shared<Prov>(); p->v = b[t]; return p; }
};
struct Sink : psi::IResultStore {
  struct Recv : psi::IResultReceiver {
    std::vector<psi::PsiResultIndex> v;
    void Add(psi::PsiResultIndex i) override { v.push_back(i); }
    void Add(std::vector<psi::PsiResultIndex> i) override { v.insert(v.end(), i.begin(), i.end()); }
    void Finish() override {}
  };
  std::mutex mu;
  std::map<size_t, std::shared_ptr<Recv>> r;
  size_t n = 1;
  size_t GetBucketNum() const override { return n; }
  std::shared_ptr<psi::IResultReceiver> GetReceiver(size_t t) override { std::lock_guard<std::mutex> l(mu); auto& x = r[t]; if (!x) x = std::make_shared<Recv>(); return x; }
};
static void OpCase(Case& c, Rng& g, const std::string& tmp) {
  Scratch S(tmp);
  int kind = g() % 3;  // ecdh, kkrt, rr22
  int nb = kind == 0 ? 1 : R(g, 1, 4), uni = R(g, 2, 24), recv = g() % 2;
  bool bc = g() % 2;
  auto w = Words(g, uni * nb, R(g, 6, 14), "");
  json bk = json::array();
  std::vector<std::shared_ptr<Store>> in(2);
  for (auto& x : in) x = std::make_shared<Store>();
  for (int b = 0; b < nb; ++b) {
    Sets s = RandSets(g, 2, uni, kind != 1);
    json two = json::array();
    for (int p = 0; p < 2; ++p) {
      json l = json::array();
      std::vector<psi::PsiItemData> v;
      for (int k : s[p]) {
        int cnt = g() % 3 ? 1 : R(g, 1, 4);
        l.push_back({k, cnt});
        v.push_back({w[b * uni + k - 1], (uint32_t)cnt});
      }
      in[p]->b.push_back(v);
      two.push_back(l);
    }
    bk.push_back(two);
  }
  int bins = R(g, 0, 1) ? 1 : 4;
  bool pipe = g() % 2, low = g() % 2;
  int batch = std::vector<int>{1, 3, 4096}[g() % 3], curve = std::vector<int>{1, 2, 3, 4}[g() % 4];
  c.in = {{"buckets", bk}, {"recv", recv}, {"bc", bc}, {"kind", kind}, {"bins", bins}};
  auto m = RunParties(2, false, [&](int r, LinkP l) {
    auto sink = std::make_shared<Sink>();
    sink->n = nb;
    std::unique_ptr<psi::PsiOperator> op;
    if (kind == 0) {
      psi::ecdh::EcdhPsiOptions o;
      o.link_ctx = l;
      o.target_rank = bc ? yacl::link::kAllRank : recv;
      o.ecc_cryptor = psi::CreateEccCryptor((psi::CurveType)curve);
      o.batch_size = batch;
      std::string d = S / ("p" + std::to_string(r));
      fs::create_directories(d + "/self_ec_point_store");
      fs::create_directories(d + "/peer_ec_point_store");
      op = std::make_unique<psi::ecdh::EcdhOperator>(o, in[r], sink, bins, d);
    } else if (kind == 1) {
      psi::kkrt::KkrtOperator::Options o;
      o.link_ctx = l; o.receiver_rank = recv; o.broadcast_result = bc;
      op = std::make_unique<psi::kkrt::KkrtOperator>(o, in[r], sink);
    } else {
      psi::rr22::Rr22PsiOptions ro(40, 1, true);
      if (low) ro.mode = psi::rr22::Rr22PsiMode::LowCommMode;
      psi::rr22::Rr22Operator::Options o{ro};
      o.lctx = l; o.receiver_rank = recv; o.broadcast_result = bc; o.pipeline_mode = pipe; o.parallel_level = 2;
      op = std::make_unique<psi::rr22::Rr22Operator>(o, in[r], sink);
    }
    op->Init();
    op->Run();
    op->End();
    json out = json::array();
    for (int b = 0; b < nb; ++b) {
      json l2 = json::array();
      if (sink->r.count(b))
        for (auto& x : sink->r[b]->v)
          l2.push_back({x.data < in[r]->b[b].size() ? bk[b][r][x.data][0].get<int>() : -1, x.peer_item_cnt});
      out.push_back(l2);
    }
    return out;
  });
  for (int p = 0; p < 2; ++p) {
    if (m.res[p]["st"] != "ok") c.add({{"e", "Failed"}, {"p", p}, {"err", m.res[p]["err"]}});
    else c.add({{"e", "Op"}, {"p", p}, {"res", m.res[p]["v"]}});
  }
  c.add({{"e", "Over"}, {"timeouts", m.timeouts}});
}
// ---- noisy results ------------------------------------------------------------------------------------------------------------
static void DpCase(Case& c, Rng& g, bool big) {
  int uni = big ? 1200 : R(g, 1, 30);
  Sets s(2);
  if (big) {
    s[0] = Pick(g, uni, 800);
    s[1] = Pick(g, uni, 900);
  } else {
    s = RandSets(g, 2, uni, true);
    if (g() % 8 == 0) s[1] = s[0];
  }
  int curve = big ? 1 : R(g, 1, 3);
  // rates in thousandths; 1000: certainly
  int p1 = std::vector<int>{1000, 1000, 900, 500, 0}[g() % (big ? 4 : 5)];
  double eps = std::vector<double>{60, 3, 1, 0.5}[big ? 1 + g() % 3 : g() % 3];
  int p2 = eps > 40 ? 1000 : (int)std::lround(1000 * std::exp(eps) / (1 + std::exp(eps)));
  auto w = Words(g, uni, R(g, 4, 12), "");
  c.in = {{"a", s[0]}, {"b", s[1]}, {"p1", p1}, {"p2", p2}, {"big", big}};
  psi::dp_psi::DpPsiOptions o(p1 / 1000.0, eps);
  for (int k = 0; k < (big ? 2 : 1); ++k) {
    auto m = RunParties(2, false, [&](int r, LinkP l) {
      std::vector<std::string> items;
      for (int x : s[r]) items.push_back(w[x - 1]);
      size_t sub = 0, up = 0;
      if (r == 0) {
        size_t n = psi::dp_psi::RunDpEcdhPsiAlice(o, l, items, &sub, &up, (psi::CurveType)curve);
        return json{{"n", n}, {"sub", sub}, {"up", up}};
      }
      json ids = json::array();
      for (size_t i : psi::dp_psi::RunDpEcdhPsiBob(o, l, items, &sub, (psi::CurveType)curve)) ids.push_back(i < s[1].size() ? s[1][i] : -1);
      return json{{"res", ids}, {"sub", sub}};
    });
    if (!m.ok()) { Ends(c, m); return; }
    auto &a = m.res[0]["v"], &b = m.res[1]["v"];
    c.add({{"e", "Dp"}, {"n", a["n"]}, {"sub", a["sub"]}, {"up", a["up"]}, {"bsub", b["sub"]}, {"res", b["res"]}});
  }
}
// the same through the configured interface: the receiver alone gets a result
static void DpMem(Case& c, Rng& g) {
  int uni = R(g, 4, 30), recv = g() % 2;
  Sets s(2);
  do s = RandSets(g, 2, uni, false); while ([&] { for (int x : s[recv]) if (std::find(s[1 - recv].begin(), s[1 - recv].end(), x) == s[1 - recv].end()) return false; return true; }());
  auto w = Words(g, uni, R(g, 4, 12), "");
  std::map<std::string, int> id;
  for (int i = 0; i < uni; ++i) id[w[i]] = i + 1;
  c.in = {{"sets", s}, {"recv", recv}};
  auto conf = MemConf(psi::DP_PSI_2PC, recv, false, R(g, 0, 3));
  conf.mutable_dppsi_params()->set_bob_sub_sampling(1);
  conf.mutable_dppsi_params()->set_epsilon(60);
  auto m = RunParties(2, false, [&](int r, LinkP l) {
    std::vector<std::string> items;
    for (int k : s[r]) items.push_back(w[k - 1]);
    psi::MemoryPsi p(conf, l);
    return IdsOf(p.Run(items), id);
  });
  if (!m.ok()) { Ends(c, m); return; }
  c.add({{"e", "Sure"}, {"got", m.res[recv]["v"]}, {"other", m.res[1 - recv]["v"]}});
}
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  int mult = a.thorough ? 8 : 1;
  auto many = [&](const std::string& name, int n, const std::function<void(Case&, Rng&, int)>& f) {
    for (int i = 0; i < n * mult; ++i)
      run.run(name + "-" + std::to_string(i), [&, i](Case& c) { Rng g(a.seed * 7919u + i * 104729u + name.size() * 31u); f(c, g, i); });
  };
  if (a.mode == "ecdh3") {
    many("res", 220, [&](Case& c, Rng& g, int i) { int uni = i == 3 ? 5200 : R(g, 1, 40); Sets s = RandSets(g, 3, uni, true); if (i == 3) for (auto& v : s) v = Pick(g, uni, R(g, 4090, 5000)); MemCase(c, g, psi::ECDH_PSI_3PC, 3, uni, s); });
  } else if (a.mode == "wire3") {
    many("wire", 110, [&](Case& c, Rng& g, int) { Wire3(c, g); });
  } else if (a.mode == "nty") {
    many("nty", 300, [&](Case& c, Rng& g, int i) { NtyCase(c, g, false, i == 5 ? 20000 : i == 6 ? 3000 : 0); });
  } else if (a.mode == "ntywire") {
    many("ntywire", 80, [&](Case& c, Rng& g, int) { NtyCase(c, g, true, 0); });
  } else if (a.mode == "npc") {
    many("npc", 300, [&](Case& c, Rng& g, int i) {
      int type = std::vector<int>{psi::ECDH_PSI_NPC, psi::ECDH_PSI_NPC, psi::KKRT_PSI_NPC, psi::KKRT_PSI_2PC}[i % 4];
      int n = type == psi::KKRT_PSI_2PC ? 2 : R(g, 2, 7), uni = R(g, 1, 24);
      MemCase(c, g, type, n, uni, RandSets(g, n, uni, true));
    });
  } else if (a.mode == "bucket") {
    many("bucket", 260, [&](Case& c, Rng& g, int) { BucketCase(c, g, a.tmp); });
  } else if (a.mode == "operator") {
    many("op", 300, [&](Case& c, Rng& g, int) { OpCase(c, g, a.tmp); });
  } else if (a.mode == "dp") {
    many("dp", 260, [&](Case& c, Rng& g, int) { DpCase(c, g, false); });
    many("dpbig", 24, [&](Case& c, Rng& g, int) { DpCase(c, g, true); });
    many("dpmem", 100, [&](Case& c, Rng& g, int) { DpMem(c, g); });
  }
  run.finish();
}
