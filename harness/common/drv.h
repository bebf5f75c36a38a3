// Driver protocol shared by every harness (see bin/vlib.py run_driver).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <nlohmann/json.hpp>

#include "spdlog/spdlog.h"

namespace drv {
using json = nlohmann::json;

struct Args {
  std::string out;
  long start = 0;
  std::set<long> only;
  unsigned seed = 1;
  bool thorough = false;
  std::string mode;
  std::string tmp;
  long shard = 0, shards = 1;
  bool wanted(long i) const { return i % shards == shard && i >= start && (only.empty() || only.count(i)); }
};

inline Args Parse(int argc, char** argv) {
  Args a;
  if (const char* s = getenv("VERIF_SEED")) a.seed = (unsigned)atol(s);
  if (const char* s = getenv("VERIF_TIER")) a.thorough = std::string(s) == "thorough";
  if (const char* s = getenv("VERIF_SCRATCH")) a.tmp = s;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (k == "--out") a.out = next();
    else if (k == "--start") a.start = std::stol(next());
    else if (k == "--shard") { std::string v = next(); a.shard = std::stol(v); a.shards = std::stol(v.substr(v.find('/') + 1)); }
    else if (k == "--mode") a.mode = next();
    else if (k == "--seed") a.seed = (unsigned)std::stoul(next());
    else if (k == "--only") {
      std::stringstream ss(next());
      std::string t;
      while (std::getline(ss, t, ',')) a.only.insert(std::stol(t));
    }
  }
  spdlog::set_level(getenv("VERIF_LOG") ? spdlog::level::debug : spdlog::level::off);
  return a;
}

// One recorded execution.
struct Case {
  json in = json::object();
  json ev = json::array();
  void add(json e) { ev.push_back(std::move(e)); }
};

struct Runner {
  explicit Runner(Args args) : a(std::move(args)), f(a.out, std::ios::app) {}
  // Runs `fn` as case number n (n counts every call, run or skipped).
  void run(const std::string& key, const std::function<void(Case&)>& fn) {
    long i = n++;
    if (!a.wanted(i)) return;
    printf("CASE %ld %s\n", i, key.c_str());
    fflush(stdout);
    Case c;
    fn(c);
    if (c.in.empty()) c.in["none"] = 0;
    json line = {{"i", i}, {"key", key}, {"in", c.in}, {"ev", c.ev}};
    f << line.dump(-1, ' ', true, json::error_handler_t::replace) << "\n";
    f.flush();
    printf("END %ld\n", i);
    fflush(stdout);
  }
  void finish() {
    printf("ALLDONE\n");
    fflush(stdout);
    f.flush();
    _Exit(0);
  }
  Args a;
  std::ofstream f;
  long n = 0;
};

using Rng = std::mt19937;
inline int R(Rng& g, int lo, int hi) { return lo + (int)(g() % (unsigned)(hi - lo + 1)); }
}  // namespace drv
