#pragma once
#include <cstdint>
#include "absl/strings/ascii.h"
#include "absl/strings/str_join.h"
#include "absl/strings/string_view.h"
namespace absl {
inline std::string BytesToHexString(string_view s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
inline int ShimHex(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline std::string HexStringToBytes(string_view s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(ShimHex(s[i]) * 16 + ShimHex(s[i + 1]));
  return r;
}
inline bool HexStringToBytes(string_view s, std::string* out) { *out = HexStringToBytes(s); return s.size() % 2 == 0; }
inline std::string ShimB64(string_view s, const char* t, bool pad) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = (uint8_t)s[i] << 16 | (i + 1 < s.size() ? (uint8_t)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (uint8_t)s[i + 2] : 0);
    r += t[v >> 18]; r += t[v >> 12 & 63];
    if (i + 1 < s.size()) r += t[v >> 6 & 63]; else if (pad) r += '=';
    if (i + 2 < s.size()) r += t[v & 63]; else if (pad) r += '=';
  }
  return r;
}
inline bool ShimUnB64(string_view s, std::string* out, const char* t) {
  std::string r; uint32_t v = 0; int n = 0; size_t len = s.size();
  while (len && s[len - 1] == '=') --len;
  for (size_t i = 0; i < len; ++i) {
    const char* p = t; while (*p && *p != s[i]) ++p;
    if (!*p) return false;
    v = v << 6 | (uint32_t)(p - t); n += 6;
    if (n >= 8) { n -= 8; r += (char)(v >> n & 255); }
  }
  *out = r; return len % 4 != 1;
}
inline const char* ShimStd64() { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; }
inline const char* ShimWeb64() { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"; }
inline std::string Base64Escape(string_view s) { return ShimB64(s, ShimStd64(), true); }
inline void Base64Escape(string_view s, std::string* d) { *d = Base64Escape(s); }
inline std::string WebSafeBase64Escape(string_view s) { return ShimB64(s, ShimWeb64(), false); }
inline bool Base64Unescape(string_view s, std::string* d) { return ShimUnB64(s, d, ShimStd64()); }
inline bool WebSafeBase64Unescape(string_view s, std::string* d) { return ShimUnB64(s, d, ShimWeb64()); }
inline std::string CHexEscape(string_view s) { std::string r; for (unsigned char c : s) if (c < 32 || c > 126 || c == '"' || c == '\\') { r += "\\x" + BytesToHexString(string_view((char*)&c, 1)); } else r += (char)c; return r; }
inline std::string CEscape(string_view s) { return CHexEscape(s); }
}  // namespace absl
