#include <atomic>
#include <thread>

#include "drv.h"
#include "psi/utils/progress.h"

using namespace drv;
using psi::Progress;

static json Obs(const char* e, int n, const Progress::Data& d) {
  return {{"e", e}, {"n", n}, {"total", d.total}, {"running", d.running}, {"finished", d.finished},
          {"pct", d.percentage}, {"desc", d.description}};
}
static Progress::Mode M(bool par) { return par ? Progress::Mode::kParallel : Progress::Mode::kSerial; }

struct Tree {
  struct N { std::shared_ptr<Progress> p; int mode = 0; size_t w = 0, subs = 0; };
  std::vector<N> ns;
  void root(Case& c, const std::string& d) {
    ns.push_back({std::make_shared<Progress>(d)});
    c.add({{"e", "New"}, {"desc", d}});
  }
};

// sequential histories of the whole interface
static void Sequential(Runner& r, unsigned seed, int len) {
  r.run("seq/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Tree t;
    t.root(c, R(g, 0, 1) ? "task" : "");
    static const char* kD[] = {"", "a", "load", "x y"};
    for (int s = 0; s < len; ++s) {
      int i = R(g, 0, (int)t.ns.size() - 1);
      auto& nd = t.ns[i];
      int n = i + 1;
      switch (R(g, 0, 11)) {
        case 0: case 1: {
          static const int kP[] = {0, 1, 33, 50, 99, 100, 101, 250};
          int p = kP[R(g, 0, 7)];
          nd.p->Update(p);
          c.add({{"e", "Update"}, {"n", n}, {"p", p}});
          break;
        }
        case 2:
          if (R(g, 0, 2)) break;
          nd.p->Done();
          c.add({{"e", "Done"}, {"n", n}});
          break;
        case 3: {
          if (nd.mode) break;
          std::vector<size_t> w;
          int k = R(g, 1, 4);
          for (int j = 0; j < k; ++j) w.push_back(R(g, 0, 5) ? R(g, 1, 90) : 0);
          bool par = R(g, 0, 2) == 0;
          nd.p->SetWeights(w, M(par));
          nd.mode = 1; nd.w = k;
          c.add({{"e", "Weights"}, {"n", n}, {"w", w}, {"mode", par ? "parallel" : "serial"}});
          break;
        }
        case 4: {
          if (nd.mode == 1 && R(g, 0, 1)) break;
          size_t k = std::max<size_t>(nd.subs, R(g, 1, 5));
          bool par = R(g, 0, 3) != 0;
          nd.p->SetSubJobCount(k, M(par));
          nd.mode = 1; nd.w = k;
          c.add({{"e", "SubJobs"}, {"n", n}, {"c", k}, {"mode", par ? "parallel" : "serial"}});
          break;
        }
        case 5: case 6: {
          if (!nd.mode || nd.subs >= nd.w || t.ns.size() >= 12) break;
          std::string d = kD[R(g, 0, 3)];
          bool nx = R(g, 0, 1);
          auto ch = nx ? nd.p->NextSubProgress(d) : nd.p->AddSubProgress(d);
          nd.subs++;
          c.add({{"e", nx ? "NextSub" : "AddSub"}, {"n", n}, {"desc", d}});
          t.ns.push_back({ch});
          break;
        }
        case 7:
          c.add({{"e", "IsDone"}, {"n", n}, {"r", nd.p->IsDone()}});
          break;
        default:
          c.add(Obs("Get", n, nd.p->Get()));
      }
    }
    for (size_t i = 0; i < t.ns.size(); ++i) {
      c.add(Obs("Get", (int)i + 1, t.ns[i].p->Get()));
      c.add({{"e", "IsDone"}, {"n", i + 1}, {"r", t.ns[i].p->IsDone()}});
    }
  });
}

// one worker advances the tree while other threads observe it
static void Concurrent(Runner& r, unsigned seed, int steps) {
  r.run("conc/" + std::to_string(seed), [&](Case& c) {
    Rng g(seed);
    Tree t;
    Case w;
    t.root(w, "job");
    auto root = t.ns[0].p;
    int k = R(g, 2, 5);
    std::vector<size_t> ws;
    for (int j = 0; j < k; ++j) ws.push_back(R(g, 1, 50));
    root->SetWeights(ws, M(false));
    w.add({{"e", "Weights"}, {"n", 1}, {"w", ws}, {"mode", "serial"}});
    std::atomic<int> started{2}, completed{2};
    std::atomic<bool> stop{false};
    std::vector<std::vector<std::pair<int, json>>> reads(3);
    std::vector<std::thread> th;
    for (int q = 0; q < 3; ++q)
      th.emplace_back([&, q] {
        std::string last;
        while (!stop.load()) {
          int lo = completed.load();
          auto d = root->Get();
          int hi = started.load();
          json o = Obs("Read", 1, d);
          std::string dump = o.dump() + std::to_string(lo);
          if (dump != last && reads[q].size() < 150) {
            o["lo"] = lo; o["hi"] = hi;
            reads[q].push_back({hi, o});
            last = dump;
          }
        }
      });
    std::shared_ptr<Progress> cur;
    int curn = 0, pct = 0, subs = 0, nn = 1;
    for (int s = 0; s < steps; ++s) {
      json e;
      started.fetch_add(1);
      if (!cur || (pct >= 100 && subs < k) || (R(g, 0, 9) == 0 && subs < k)) {
        cur = root->NextSubProgress("p" + std::to_string(subs));
        e = {{"e", "NextSub"}, {"n", 1}, {"desc", "p" + std::to_string(subs)}};
        subs++; pct = 0; curn = ++nn;
      } else if (s == steps - 1) {
        root->Done();
        e = {{"e", "Done"}, {"n", 1}};
      } else {
        pct = std::min(100, pct + R(g, 0, 30));
        cur->Update(pct);
        e = {{"e", "Update"}, {"n", curn}, {"p", pct}};
      }
      completed.fetch_add(1);
      w.add(e);
      if (s % 3 == 0) std::this_thread::yield();
    }
    stop = true;
    for (auto& x : th) x.join();
    // order: the i-th mutation, then the reads whose window closes there
    std::vector<std::vector<json>> at(w.ev.size() + 1);
    for (auto& v : reads)
      for (auto& [hi, o] : v) at[std::min<size_t>(hi, w.ev.size())].push_back(o);
    for (size_t i = 0; i < w.ev.size(); ++i) {
      c.add(w.ev[i]);
      for (auto& o : at[i + 1]) {
        o["hi"] = std::min<int>(o["hi"].get<int>(), (int)w.ev.size());
        c.add(o);
      }
    }
    c.add(Obs("Get", 1, root->Get()));
  });
}

int main(int argc, char** argv) {
  Args a = Parse(argc, argv);
  Runner r(a);
  int n = a.thorough ? 6000 : 500, m = a.thorough ? 400 : 40;
  for (int i = 0; i < n; ++i) Sequential(r, a.seed * 100003u + i, 12 + i % 60);
  for (int i = 0; i < m; ++i) Concurrent(r, a.seed * 777u + i, 60);
  r.finish();
}
