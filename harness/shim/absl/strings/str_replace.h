#pragma once
#include <initializer_list>
#include "absl/strings/match.h"
namespace absl {
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> r) {
  std::string o; size_t i = 0;
  while (i < s.size()) { const std::pair<string_view, string_view>* best = nullptr;
    for (auto& p : r) if (!p.first.empty() && s.substr(i, p.first.size()) == p.first && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { o.append(best->second); i += best->first.size(); } else o += s[i++]; }
  return o;
}
}  // namespace absl
