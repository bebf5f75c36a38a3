#pragma once
#include <cerrno>
#include <charconv>
#include <cstdint>
#include <cstdlib>
#include "absl/strings/ascii.h"
namespace absl {
template <class T> bool SimpleAtoi(string_view s, T* out) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') { s.remove_prefix(1); if (s.empty() || !ascii_isdigit(s[0])) return false; }
  if (s.empty()) return false;
  auto r = std::from_chars(s.data(), s.data() + s.size(), *out);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
inline bool SimpleAtod(string_view s, double* out) { s = StripAsciiWhitespace(s); if (s.empty()) return false; std::string t(s); char* e; *out = strtod(t.c_str(), &e); return *e == 0; }
inline bool SimpleAtof(string_view s, float* out) { double d; if (!SimpleAtod(s, &d)) return false; *out = (float)d; return true; }
inline bool SimpleAtob(string_view s, bool* out) { auto t = AsciiStrToLower(s); if (t == "true" || t == "t" || t == "yes" || t == "y" || t == "1") { *out = true; return true; } if (t == "false" || t == "f" || t == "no" || t == "n" || t == "0") { *out = false; return true; } return false; }
}  // namespace absl
