// Whole two-party PSI runs (each party its own process), judged by what each party is left with.
#include "psi2.h"
int main(int argc, char** argv) {
  Runner run(Parse(argc, argv));
  const Args& a = run.a;
  std::string mode = a.mode;  // ecdh | kkrt | rr22 | join | align | disclose | digest
  int mult = a.thorough ? 12 : 1;
  auto gen = [&](int n, std::function<void(Opt&, Rng&)> tweak, int maxrows, const char* what) {
    for (int i = 0; i < n; ++i) {
      run.run(std::string(what) + "-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 7919u + i * 104729u + std::hash<std::string>()(std::string(what) + mode));
        Opt o;
        o.curve = std::vector<int>{1, 2, 3, 4, 5, 1}[g() % 6];
        o.batch = std::vector<long>{0, 1, 2, 3, 5, 8, 64}[g() % 7];
        o.bucket = std::vector<long>{0, 1, 2, 3, 7, 1000}[g() % 6];
        o.low = g() % 3 == 0;
        o.bc = g() % 3 != 0;
        o.align = g() % 4 != 0;
        o.join = g() % 6;
        o.left = R(g, 1, 2);
        if (g() % 3 == 0) o.null_rep = g() % 2 ? "NA" : "nil";
        o.uniq[0] = g() % 4 == 0;
        o.uniq[1] = g() % 4 == 0;
        for (auto& k : o.kb) k = PickKb(g);
        tweak(o, g);
        int nk = R(g, 1, 3), uni = R(g, 1, 14);
        Gen G = MakeKeys(g, nk, uni, g() % 8);
        std::vector<int> ids[2];
        Side sd[2];
        bool same = g() % 2;
        for (int p = 0; p < 2; ++p) {
          bool u = o.uniq[p] || g() % 3 == 0;
          ids[p] = PickIds(g, uni, R(g, 1, maxrows), u);
          sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", same, 1, !o.uniq[p] && g() % 4 == 0);
        }
        RunCase(c, a, o, g, sd, ids, g() % 2, g() % 5 == 0);
      });
    }
  };
  // many rows with unique keys: default sizes of batches, caches and buckets are crossed
  auto big = [&](const char* what, std::function<void(Opt&, Rng&)> tweak, int ns, int nr, int step) {
    run.run(std::string("big-") + what, [&](Case& c) {
      Rng g(a.seed + ns);
      Opt o;
      o.join = 1;
      tweak(o, g);
      std::vector<int> ids[2];
      for (int i = 0; i < ns; ++i) ids[0].push_back(i + 1);
      for (int i = 0; i < nr; ++i) ids[1].push_back(1 + i * step);
      Gen G;
      G.nk = 1;
      int mx = std::max(ns, 1 + (nr - 1) * step);
      for (int i = 1; i <= mx; ++i) G.keys.push_back({"k" + std::to_string((i * 7919ll) % 1000003) + "x" + std::to_string(i)});
      Side sd[2];
      for (int p = 0; p < 2; ++p) {
        std::shuffle(ids[p].begin(), ids[p].end(), g);
        sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 0, false);
      }
      RunCase(c, a, o, g, sd, ids, false, false);
      c.in["big"] = true;
    });
  };
  if (mode == "ecdh") {
    gen(700 * mult, [](Opt& o, Rng&) { o.proto = "ecdh"; }, 14, "ecdh");
    big("ecdh-default", [](Opt& o, Rng&) { o.proto = "ecdh"; }, 9000, 5000, 2);
    big("ecdh-exact", [](Opt& o, Rng&) { o.proto = "ecdh"; o.align = false; }, 4096, 8192, 1);
  } else if (mode == "kkrt" || mode == "rr22") {
    gen(500 * mult, [&](Opt& o, Rng&) { o.proto = mode; }, 14, mode.c_str());
    big("bucket", [&](Opt& o, Rng&) { o.proto = mode; o.bucket = 700; }, 4000, 2500, 3);
    big("one", [&](Opt& o, Rng&) { o.proto = mode; o.bucket = 0; }, 3000, 6000, 1);
    if (mode == "rr22") big("low", [&](Opt& o, Rng&) { o.proto = mode; o.bucket = 900; o.low = true; }, 3000, 2000, 2);
  }
  if (mode == "join" || mode == "align")
    for (std::string pr : {"ecdh", "kkrt", "rr22"})
      gen(200 * mult, [&](Opt& o, Rng& g) {
        o.proto = pr; o.curve = 1;
        if (mode == "align") { o.bc = true; o.align = true; } else { o.bc = g() % 5 != 0; o.uniq[0] = o.uniq[1] = false; o.join = R(g, 1, 5); }
      }, mode == "align" ? 14 : 18, (mode + "-" + pr).c_str());
  if (mode == "align") {
    big("align", [&](Opt& o, Rng&) { o.proto = "rr22"; }, 66500, 67000, 1);
    big("align-uniq", [&](Opt& o, Rng&) { o.proto = "rr22"; o.uniq[0] = true; }, 9000, 9000, 2);
  }
  // both parties ask for the identical-input shortcut: key sets equal, nearly equal, or merely spelling the same text
  if (mode == "digest") {
    for (int i = 0; i < 500 * mult; ++i)
      run.run("digest-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 31337u + i * 7u);
        Opt o;
        o.proto = std::vector<std::string>{"ecdh", "kkrt", "rr22"}[g() % 3];
        o.batch = R(g, 1, 5); o.bucket = R(g, 1, 5);
        o.digest = true;
        for (auto& k : o.kb) k = PickKb(g);
        o.bc = g() % 3 != 0; o.align = g() % 4 != 0; o.join = g() % 6; o.left = R(g, 1, 2);
        int kind = i % 7, n = R(g, 1, 8), nk = R(g, 1, 2);
        Gen G = MakeKeys(g, nk, n + 2, g() % 8);
        std::vector<int> ids[2];
        for (int k = 1; k <= n; ++k) { ids[0].push_back(k); ids[1].push_back(k); }
        if (kind == 1) ids[g() % 2][g() % n] = n + 1;                      // one key differs
        if (kind == 2) ids[g() % 2].push_back(n + 1);                      // one key more
        if (kind == 3) ids[g() % 2].push_back(ids[0][g() % n]);            // one key twice
        if (kind >= 5) {                                                   // keys repeat on both sides, alike or not
          for (int x = R(g, 1, 3); x > 0; --x) { int k = ids[0][g() % n]; ids[0].push_back(k); ids[1].push_back(kind == 5 ? k : ids[0][g() % n]); }
        }
        if (kind == 4) {                                                   // same text, cut differently
          std::string text = RandWord(g, 2 * n + 3);
          G.keys.clear(); nk = G.nk = 1;
          auto cut = [&](int parts, int p) {
            std::set<size_t> at;
            while ((int)at.size() < parts - 1) at.insert(1 + g() % (text.size() - 1));
            size_t b = 0;
            ids[p].clear();
            std::vector<std::string> w;
            for (size_t e : at) { w.push_back(text.substr(b, e - b)); b = e; }
            w.push_back(text.substr(b));
            for (auto& x : w) {
              size_t k = 0;
              while (k < G.keys.size() && G.keys[k][0] != x) ++k;
              if (k == G.keys.size()) G.keys.push_back({x});
              ids[p].push_back((int)k + 1);
            }
          };
          // ordered so that reading the file as it stands or sorted gives the same text
          text = "";
          for (int k = 0; k < 2 * n + 3; ++k) text += (char)('a' + k);
          cut(R(g, 1, n + 1), 0); cut(R(g, 1, n + 1), 1);
          o.uniq[0] = o.uniq[1] = g() % 2;
        } else {
          o.uniq[0] = kind < 3 && g() % 3 == 0;
          o.uniq[1] = kind < 3 && g() % 3 == 0;
          if (g() % 2) for (int p = 0; p < 2; ++p) std::shuffle(ids[p].begin(), ids[p].end(), g);
        }
        Side sd[2];
        for (int p = 0; p < 2; ++p) sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 1, false);
        RunCase(c, a, o, g, sd, ids, g() % 2, false);
      });
  }
  // runs following each other over the same files: each must be judged by the files it was given
  if (mode == "rerun") {
    for (int i = 0; i < 240 * mult; ++i) {
      unsigned base = a.seed * 131u + i * 17u;
      run.run("rerun-" + std::to_string(i), [&](Case& c) {
        Scratch S(a.tmp);
        Rng g(base);
        int uni = R(g, 3, 10), nk = R(g, 1, 2), n0 = R(g, 2, uni), n1 = g() % 3 ? n0 : R(g, 2, uni);
        Gen G = MakeKeys(g, nk, uni, g() % 4 ? 7 : 0);
        Opt o;
        o.proto = std::vector<std::string>{"ecdh", "kkrt", "rr22"}[i % 3];
        o.batch = 3; o.bucket = 4;
        for (auto& k : o.kb) k = PickKb(g);
        o.uniq[0] = g() % 3 != 0; o.uniq[1] = g() % 3 != 0;
        o.digest = g() % 2;
        for (int k = 0; k < 3; ++k) {
          o.bc = k == 2 || g() % 2; o.join = g() % 6; o.left = R(g, 1, 2);
          std::vector<int> ids[2];
          Side sd[2];
          for (int p = 0; p < 2; ++p) ids[p] = PickIds(g, uni, p ? n1 : n0, true);
          if (k == 0 ? i % 2 == 0 : g() % 4 == 0) ids[0] = ids[1];
          for (int p = 0; p < 2; ++p) sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 0, false, 1);
          // the files keep their size wherever the keys allow it
          fs::remove(S / "s.out.csv"); fs::remove(S / "r.out.csv");
          if (g() % 2) { std::ofstream(S / "r.out.csv") << "stale\nstale\nstale,stale\n"; if (o.bc) std::ofstream(S / "s.out.csv") << std::string(4000, 'x') << "\n"; }
          Case one;
          RunIn(S, one, o, g, sd, ids, g() % 2, false);
          if (k == 2 || i % 3 == k) { c = one; if (i % 3 == k) break; }
        }
      });
    }
  }
  // the task dies (a process or the network) at some point, once or several times, and is started again
  if (mode == "resume-ecdh" || mode == "resume-kkrt" || mode == "resume-rr22") {
    int nconf = 24 * (a.thorough ? 4 : 1), nfault = 24 * (a.thorough ? 4 : 1);
    for (int i = 0; i < nconf; ++i)
      for (int j = 0; j < nfault; ++j)
        run.run(mode + "-" + std::to_string(i) + "-" + std::to_string(j), [&](Case& c) {
          Rng g(a.seed * 977u + i * 65537u + std::hash<std::string>()(mode));
          Opt o;
          o.proto = mode.substr(7);
          o.curve = 1;
          o.batch = R(g, 1, 4); o.bucket = R(g, 1, 4); o.low = g() % 3 == 0;
          for (auto& k : o.kb) k = PickKb(g);
          o.bc = i % 3 != 0; o.align = g() % 2; o.join = g() % 3 ? 1 : R(g, 2, 5); o.left = R(g, 1, 2);
          int uni = R(g, 4, 12), nk = 1;
          Gen G = MakeKeys(g, nk, uni, 0);
          std::vector<int> ids[2];
          Side sd[2];
          bool same = g() % 8 == 0;
          for (int p = 0; p < 2; ++p) {
            bool u = g() % 3 == 0 || same;
            ids[p] = same && p ? ids[0] : PickIds(g, uni, R(g, 3, 12), u);
            sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 1, false);
            o.uniq[p] = u && g() % 2;
          }
          bool sw = g() % 2;
          Rng h(i * 1009u + j * 31u + a.seed);
          long steps[2] = {0, 0}, frames = 0;
          {  // how many steps does each party take when nothing happens?
            Scratch S(a.tmp);
            o.rec[0] = S / "rec-s"; o.rec[1] = S / "rec-r";
            Case d;
            auto nr = RunIn(S, d, o, g, sd, ids, sw, false);
            for (int p = 0; p < 2; ++p) steps[p] = nr.res[p].value("steps", 100l);
            frames = nr.frames;
          }
          Scratch S(a.tmp);
          o.rec[0] = S / "rec-s"; o.rec[1] = S / "rec-r";
          json ev = json::array();
          int nf = j % 4 == 3 ? R(h, 2, 3) : 1;
          for (int k = 0; k < nf; ++k) {
            Fault ft;
            if (j % 6 == 5) ft.cut = R(h, 0, frames);
            else {
              ft.victim = (j + k) % 2;
              // spread evenly over the run, then at random
              ft.at = k == 0 && nf == 1 ? 1 + (steps[ft.victim] * j + j / 2) / nfault + R(h, 0, 1) : R(h, 1, steps[ft.victim]);
            }
            Case t;
            auto nr = RunIn(S, t, o, g, sd, ids, sw, false, ft, "Early");
            ev.push_back({{"e", "Try"}, {"fault", ft.cut >= 0 ? "net" : ft.victim ? "r" : "s"}, {"s", nr.res[0]["st"]}, {"r", nr.res[1]["st"]}, {"at", ft.cut >= 0 ? ft.cut : ft.at}});
            for (auto& e : t.ev) if (e["st"] == "ok") ev.push_back(e);
          }
          Case last;
          RunIn(S, last, o, g, sd, ids, sw, false);
          for (auto& e : last.ev) ev.push_back(e);
          c.in = last.in;
          c.in["steps"] = json{steps[0], steps[1]};
          c.ev = ev;
        });
  }
  // a task that died is started again after its inputs or its configuration changed
  if (mode == "admit") {
    static const char* kinds[] = {"none", "payload", "keys", "config", "order", "keys", "config", "keys"};
    for (int i = 0; i < 400 * mult; ++i)
      run.run("admit-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 3571u + i * 65537u);
        Opt o;
        o.proto = std::vector<std::string>{"ecdh", "kkrt", "rr22"}[i % 3];
        o.curve = 1; o.batch = R(g, 1, 4); o.bucket = R(g, 2, 4);
        for (auto& k : o.kb) k = PickKb(g);
        o.bc = g() % 3 != 0; o.align = g() % 2; o.join = g() % 2 ? 1 : R(g, 2, 5); o.left = R(g, 1, 2);
        int uni = R(g, 5, 12);
        Gen G = MakeKeys(g, 1, uni, 7);   // keys of one length: a changed file keeps its size
        std::vector<int> ids[2];
        Side sd[2];
        for (int p = 0; p < 2; ++p) {
          bool u = g() % 2;
          ids[p] = PickIds(g, uni, R(g, 3, 10), u);
          o.uniq[p] = u && g() % 2;
          sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", true, 0, false, 1);
        }
        Scratch S(a.tmp);
        o.rec[0] = S / "rec-s"; o.rec[1] = S / "rec-r";
        bool sw = g() % 2;
        Fault ft;
        ft.victim = g() % 2; ft.at = R(g, 4, 45);
        if (i % 5 == 4) { ft.victim = -1; ft.cut = R(g, 10, 60); }
        Case t, last;
        RunIn(S, t, o, g, sd, ids, sw, false, ft, "Early");
        std::string kind = kinds[g() % 8];
        int w = g() % 2;  // the party whose file changes
        if (kind == "keys") {
          int n = ids[w].size(), at = g() % n, k = R(g, 1, uni);
          std::set<int> used(ids[w].begin(), ids[w].end());
          while (k == ids[w][at] || (o.uniq[w] && used.count(k) && (int)used.size() < uni)) k = R(g, 1, uni);
          if (o.uniq[w] && used.count(k)) { kind = "none"; }
          else {
            std::set<int> before = used;
            ids[w][at] = k;
            if (std::set<int>(ids[w].begin(), ids[w].end()) == before) kind = "order";  // the same keys, distributed differently
            for (size_t x = 0; x < sd[w].t.cols.size(); ++x) if (sd[w].t.cols[x] == sd[w].keys[0]) sd[w].t.rows[at][x] = G.keys[k - 1][0];
          }
        } else if (kind == "payload") {
          for (size_t x = 0; x < sd[w].t.cols.size(); ++x)
            if (sd[w].t.cols[x] != sd[w].keys[0]) for (auto& r : sd[w].t.rows) r[x] = "Q" + r[x];
        } else if (kind == "order") {
          std::vector<size_t> pm(ids[w].size());
          for (size_t x = 0; x < pm.size(); ++x) pm[x] = x;
          std::shuffle(pm.begin(), pm.end(), g);
          auto i2 = ids[w]; auto r2 = sd[w].t.rows;
          for (size_t x = 0; x < pm.size(); ++x) { ids[w][x] = i2[pm[x]]; sd[w].t.rows[x] = r2[pm[x]]; }
        } else if (kind == "config") {
          // both parties agree on the new configuration
          switch (g() % 4) {
            case 0: o.batch += 3; o.bucket += 3; break;
            case 1: o.bc = !o.bc; break;
            case 2: o.join = o.join == 5 ? 1 : 5; break;
            case 3: o.left = 3 - o.left; break;
          }
        }
        json rec = json::array();
        for (int p = 0; p < 2; ++p)
          if (fs::exists(o.rec[p] + "/checkpoint.json") && (kind == "config" || w == p)) rec.push_back(p ? "r" : "s");
        RunIn(S, last, o, g, sd, ids, sw, false);
        c.in = last.in;
        c.in["change"] = kind;
        c.in["rec"] = rec;
        c.ev = last.ev;
      });
  }
  auto plain = [&](Rng& g, Opt& o, Side sd[2], std::vector<int> ids[2], int rows) {
    o.curve = R(g, 1, 4); o.batch = R(g, 1, 40); o.bucket = R(g, 1, 40); o.low = g() % 2;
    for (auto& k : o.kb) k = PickKb(g);
    o.bc = g() % 2; o.align = g() % 2; o.join = g() % 3 ? R(g, 0, 1) : R(g, 2, 5); o.left = R(g, 1, 2);
    int uni = rows + R(g, 0, rows / 2 + 1);
    Gen G = MakeKeys(g, 1, uni, 7);
    for (int p = 0; p < 2; ++p) {
      bool u = g() % 2;
      ids[p] = PickIds(g, uni, rows, u);
      o.uniq[p] = u && g() % 2;
      sd[p] = MakeSide(g, G, ids[p], p ? "r" : "s", g() % 2, 1, false);
    }
  };
  // the two parties come with configurations that differ in something
  if (mode == "config") {
    struct Ch { const char* name; std::function<void(Opt&, Rng&)> pre; std::function<void(v2::PsiConfig&)> fn; };
    auto ecdh = [](Opt& o, Rng&) { o.proto = "ecdh"; };
    auto any = [](Opt&, Rng&) {};
    auto kkrt = [](Opt& o, Rng&) { o.proto = "kkrt"; };
    auto rr = [](Opt& o, Rng&) { o.proto = "rr22"; };
    std::vector<Ch> ch = {
        {"protocol", any, [](v2::PsiConfig& c) { auto* p = c.mutable_protocol_config(); p->set_protocol(p->protocol() == v2::PROTOCOL_KKRT ? v2::PROTOCOL_RR22 : v2::PROTOCOL_KKRT); }},
        {"curve", ecdh, [](v2::PsiConfig& c) { auto* e = c.mutable_protocol_config()->mutable_ecdh_config(); e->set_curve(e->curve() == psi::CURVE_SM2 ? psi::CURVE_25519 : psi::CURVE_SM2); }},
        {"batch", ecdh, [](v2::PsiConfig& c) { auto* e = c.mutable_protocol_config()->mutable_ecdh_config(); e->set_batch_size(e->batch_size() + 1); }},
        {"bucket", kkrt, [](v2::PsiConfig& c) { auto* e = c.mutable_protocol_config()->mutable_kkrt_config(); e->set_bucket_size(e->bucket_size() + 1); }},
        {"bucket", rr, [](v2::PsiConfig& c) { auto* e = c.mutable_protocol_config()->mutable_rr22_config(); e->set_bucket_size(e->bucket_size() + 1); }},
        {"low", rr, [](v2::PsiConfig& c) { auto* e = c.mutable_protocol_config()->mutable_rr22_config(); e->set_low_comm_mode(!e->low_comm_mode()); }},
        {"broadcast", any, [](v2::PsiConfig& c) { auto* p = c.mutable_protocol_config(); p->set_broadcast_result(!p->broadcast_result()); }},
        {"join", any, [](v2::PsiConfig& c) { c.set_advanced_join_type((v2::PsiConfig::AdvancedJoinType)((c.advanced_join_type() + 1) % 6)); }},
        {"left", any, [](v2::PsiConfig& c) { c.set_left_side(c.left_side() == v2::ROLE_SENDER ? v2::ROLE_RECEIVER : v2::ROLE_SENDER); }},
        {"digest", any, [](v2::PsiConfig& c) { c.set_check_hash_digest(!c.check_hash_digest()); }},
        {"null", any, [](v2::PsiConfig& c) { c.mutable_output_attr()->set_csv_null_rep("xx" + c.output_attr().csv_null_rep()); }},
        {"recovery", any, nullptr},
        {"role", any, [](v2::PsiConfig& c) { c.mutable_protocol_config()->set_role(v2::ROLE_UNSPECIFIED); }},
        {"same_role", any, nullptr},
        {"none", any, [](v2::PsiConfig&) {}},
        {"p_align", any, [](v2::PsiConfig& c) { c.set_disable_alignment(!c.disable_alignment()); }},
        {"p_debug", any, [](v2::PsiConfig& c) { c.mutable_debug_options()->set_logging_level("off"); }},
        {"p_count", any, [](v2::PsiConfig& c) { c.set_count_path("/nowhere/count"); }},
        {"s_nokeys", any, [](v2::PsiConfig& c) { c.clear_keys(); }},
        {"s_twice", any, [](v2::PsiConfig& c) { c.add_keys(c.keys(0)); }},
        {"s_nocol", any, [](v2::PsiConfig& c) { c.set_keys(0, "no_such_column"); }},
        {"s_nofile", any, [](v2::PsiConfig& c) { c.mutable_input_config()->set_path(c.input_config().path() + ".gone"); }},
        {"s_intype", any, [](v2::PsiConfig& c) { c.mutable_input_config()->set_type(v2::IO_TYPE_UNSPECIFIED); }},
        {"s_outtype", any, [](v2::PsiConfig& c) { c.mutable_output_config()->set_type(v2::IO_TYPE_UNSPECIFIED); }},
        {"s_nocurve", ecdh, [](v2::PsiConfig& c) { c.mutable_protocol_config()->mutable_ecdh_config()->set_curve(psi::CURVE_INVALID_TYPE); }},
    };
    for (int i = 0; i < 375 * mult; ++i)
      run.run("config-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 2741u + i * 40503u);
        Opt o;
        const Ch& k = ch[i % ch.size()];
        std::vector<int> ids[2];
        Side sd[2];
        plain(g, o, sd, ids, 60);
        o.proto = std::vector<std::string>{"ecdh", "kkrt", "rr22"}[g() % 3];
        o.null_rep = g() % 2 ? "NA" : "";
        o.digest = g() % 2;
        k.pre(o, g);
        Scratch S(a.tmp);
        int w = g() % 2;
        std::string name = k.name;
        if (name == "recovery") o.rec[w] = S / "rec";
        else if (name == "same_role") {}  // below
        else o.tweak[w] = k.fn;
        if (name == "p_align") o.align = false;
        std::string st[2];
        verif::NetResult nr;
        Fault ft;
        ft.record = true;
        if (name == "same_role") {
          // two receivers or two senders
          std::vector<verif::Party> ps;
          for (int p = 0; p < 2; ++p) {
            WriteCsv(S / (p ? "r.csv" : "s.csv"), sd[p].t);
            auto conf = Conf(o, w, sd[p], S / (p ? "r.csv" : "s.csv"), S / (p ? "r.out.csv" : "s.out.csv"));
            verif::Party P;
            P.fn = [conf](std::shared_ptr<yacl::link::Context> l) { return ReportJson(MakeParty(conf, l)->Run()); };
            ps.push_back(P);
          }
          verif::NetOpt no;
          no.timeout_ms = 25000;
          nr = verif::RunNet(ps, no);
        } else
          nr = RunIn(S, c, o, g, sd, ids, g() % 2, false, ft);
        bool ok = name == "none" || name.substr(0, 2) == "p_";
        if (!ok) {
          c.ev = json::array();
          c.in = {{"proto", o.proto}, {"s", json::array()}, {"r", json::array()}};
          long bytes = 0;
          for (auto& m : nr.log) bytes += m.bytes.size();
          for (int p = 0; p < 2; ++p) c.add({{"e", "Ref"}, {"p", p ? "r" : "s"}, {"st", nr.res[p]["st"]}, {"out", fs::exists(S / (p ? "r.out.csv" : "s.out.csv"))}, {"err", nr.res[p].value("err", "")}});
          c.add({{"e", "Wire"}, {"n", bytes}});
        }
        c.in["field"] = name;
        c.in["who"] = w ? "r" : "s";
      });
  }
  // something goes wrong on one side in the middle of a run without recovery
  if (mode == "fail") {
    for (int i = 0; i < 600 * mult; ++i)
      run.run("fail-" + std::to_string(i), [&](Case& c) {
        Rng g(a.seed * 6007u + i * 40503u);
        Opt o;
        std::vector<int> ids[2];
        Side sd[2];
        plain(g, o, sd, ids, R(g, 1, 20));
        if (o.bucket > 8) o.bucket = 3;
        if (o.batch > 8) o.batch = 2;
        o.proto = std::vector<std::string>{"ecdh", "kkrt", "rr22"}[i % 3];
        o.digest = g() % 4 == 0;
        Scratch S(a.tmp);
        Fault ft;
        int w = g() % 2, kind = i % 8;
        std::string what;
        bool sw = g() % 2;
        auto set = [&](const char* n, std::function<void(v2::PsiConfig&)> f) { what = n; o.tweak[w] = f; };
        if (kind < 3) {
          what = "crash"; ft.victim = w; ft.at = R(g, 1, o.proto == "ecdh" ? 160 : 140);
        } else if (kind < 5) {
          what = "net"; ft.cut = R(g, 0, 70);
        } else if (kind == 5) {
          // the output cannot be written
          set("out", [&](v2::PsiConfig& cf) { cf.mutable_output_config()->set_path(S / "s.csv/x/out.csv"); });
          if (!o.bc) { w = 1; o.tweak[0] = nullptr; set("out", [&](v2::PsiConfig& cf) { cf.mutable_output_config()->set_path(S / "s.csv/x/out.csv"); }); }
        } else if (kind == 6) {
          what = "ragged";
          auto path = S / "bad.csv";
          Table t = sd[w].t;
          if (g() % 2 || t.cols.size() == 1) t.rows[g() % t.rows.size()].push_back("extra"); else t.rows[g() % t.rows.size()].pop_back();
          WriteCsv(path, t);
          set("ragged", [path](v2::PsiConfig& cf) { cf.mutable_input_config()->set_path(path); });
        } else {
          auto path = S / "bad.csv";
          std::ofstream(path).flush();
          set("empty", [path](v2::PsiConfig& cf) { cf.mutable_input_config()->set_path(path); });
        }
        Case t;
        auto nr = RunIn(S, t, o, g, sd, ids, sw, false, ft, "Early");
        c.in = t.in;
        c.in["what"] = what;
        c.in["who"] = w ? "r" : "s";
        c.add({{"e", "Stop"}, {"s", nr.res[0]["st"]}, {"r", nr.res[1]["st"]}, {"errs", nr.res[0].value("err", "")}, {"errr", nr.res[1].value("err", "")}});
        for (auto& e : t.ev) if (e["st"] == "ok") c.add(e);
      });
  }
  run.finish();
}
