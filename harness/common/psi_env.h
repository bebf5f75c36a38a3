// Building inputs for and reading outputs of whole PSI runs.
#pragma once
#include <filesystem>
#include <fstream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "drv.h"
#include "procnet.h"
#include "psi/proto/psi_v2.pb.h"

namespace env {
using json = nlohmann::json;
using drv::R;
using drv::Rng;
namespace fs = std::filesystem;

struct Table {
  std::vector<std::string> cols;
  std::vector<std::vector<std::string>> rows;
};
inline std::string Join(const std::vector<std::string>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  return s;
}
inline void WriteCsv(const std::string& path, const Table& t) {
  std::ofstream f(path);
  f << Join(t.cols) << "\n";
  for (auto& r : t.rows) f << Join(r) << "\n";
}
inline std::vector<std::string> SplitCsv(const std::string& line) {
  std::vector<std::string> out(1);
  bool q = false;
  for (size_t i = 0; i < line.size(); ++i) {
    char c = line[i];
    if (q) {
      if (c == '"') { if (i + 1 < line.size() && line[i + 1] == '"') { out.back() += '"'; ++i; } else q = false; }
      else out.back() += c;
    } else if (c == '"') q = true;
    else if (c == ',') out.emplace_back();
    else out.back() += c;
  }
  return out;
}
inline bool ReadCsv(const std::string& path, Table& t) {
  t = {};
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  if (!std::getline(f, line)) return true;
  t.cols = SplitCsv(line);
  while (std::getline(f, line)) t.rows.push_back(SplitCsv(line));
  return true;
}
inline std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}
inline std::string RandWord(Rng& g, int n) {
  static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  std::string s;
  while (n--) s += a[g() % 62];
  return s;
}
// A fresh directory under the scratch area for one case; removed by Drop().
struct Scratch {
  std::string dir;
  explicit Scratch(const std::string& root) {
    static int n = 0;
    dir = (root.empty() ? "/tmp/verif-x" : root) + "/c" + std::to_string(getpid()) + "-" + std::to_string(n++);
    fs::create_directories(dir + "/tmp");
    setenv("TMPDIR", (dir + "/tmp").c_str(), 1);
  }
  ~Scratch() { std::error_code ec; fs::remove_all(dir, ec); }
  std::string operator/(const std::string& f) const { return dir + "/" + f; }
};
inline json ReportJson(const psi::PsiResultReport& r) {
  return {{"orig", r.original_count()}, {"okey", r.original_key_count()}, {"inter", r.intersection_count()}, {"ikey", r.intersection_key_count()}};
}
}  // namespace env
