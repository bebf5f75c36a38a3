// Reading messages: random draws of a party, keys of one length, byte windows.
#pragma once
#include <sys/random.h>
#include <mutex>
#include <unordered_map>
#include <unordered_set>
#include "absl/strings/escaping.h"
#include "psi2.h"
// every draw of 32 random bytes of this process: candidates for its private key
static std::mutex g_rm;
static std::vector<std::string> g_draw;
extern "C" int RAND_bytes(unsigned char* p, int n) {
  for (int o = 0; o < n;) { ssize_t k = getrandom(p + o, n - o, 0); if (k <= 0) return 0; o += k; }
  if (n == 32) { std::lock_guard<std::mutex> l(g_rm); if (g_draw.size() < 16) g_draw.emplace_back((char*)p, 32); }
  return 1;
}
static std::string Hex(const std::string& s) { return absl::BytesToHexString(s); }
// keys of one length whose order is kept by renaming
static Gen OneLength(Rng& g, int uni, const std::vector<int>& order, char c) {
  std::set<std::string> w;
  while ((int)w.size() < uni) w.insert(std::string(1, c) + RandWord(g, 13));
  Gen G; G.nk = 1; G.universe = uni; G.keys.resize(uni);
  int i = 0;
  for (auto& x : w) G.keys[order[i++]] = {x};
  return G;
}
#include "win.h"
static Win Windows(const verif::NetResult& nr, int from, const std::vector<std::string>& skip) { return WindowsOf(nr.log, from, skip); }
static std::vector<std::string> Spell(const Gen& G, const std::set<int>& ids) {
  std::vector<std::string> v;
  for (int k : ids) { v.push_back(G.keys[k - 1][0]); v.push_back(absl::Base64Escape(G.keys[k - 1][0])); }
  return v;
}
