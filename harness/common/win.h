// Byte windows of recorded messages: what is repeated from run to run shows in them.
#pragma once
#include <string>
#include <unordered_set>
#include <vector>
using Win = std::unordered_set<uint64_t>;
constexpr int W = 10;
inline uint64_t HashW(const char* p) {
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < W; ++i) h = (h ^ (uint8_t)p[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}
// windows of all messages of one sender; bytes that spell a common key (the result, where both may know it) are left out
template <typename Log>
Win WindowsOf(const Log& log, int from, const std::vector<std::string>& skip) {
  Win w;
  for (auto& m : log) {
    if ((int)m.src != from) continue;
    std::vector<bool> bad(m.bytes.size() + 1);
    for (auto& s : skip)
      for (size_t at = m.bytes.find(s); at != std::string::npos; at = m.bytes.find(s, at + 1))
        for (size_t i = at; i < at + s.size(); ++i) bad[i] = true;
    size_t run = 0, big = 0;  // digests and group elements, not counters or positions
    for (size_t i = 0; i < m.bytes.size(); ++i) {
      run = bad[i] ? 0 : run + 1;
      big += (uint8_t)m.bytes[i] >= 32;
      if (i >= (size_t)W) big -= (uint8_t)m.bytes[i - W] >= 32;
      if (run >= (size_t)W && big >= 7) w.insert(HashW(m.bytes.data() + i + 1 - W));
    }
  }
  return w;
}
