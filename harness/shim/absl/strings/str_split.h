#pragma once
#include <memory>
#include <set>
#include <map>
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_join.h"
#include "absl/strings/match.h"
#include "absl/strings/string_view.h"
namespace absl {
struct ByChar { char c; explicit ByChar(char x) : c(x) {} std::pair<size_t, size_t> Find(string_view s, size_t p) const { auto i = s.find(c, p); return {i, 1}; } };
struct ByString { std::string d; explicit ByString(string_view x) : d(x) {} std::pair<size_t, size_t> Find(string_view s, size_t p) const {
  if (d.empty()) return {p + 1 < s.size() ? p + 1 : string_view::npos, 0}; auto i = s.find(d, p); return {i, d.size()}; } };
struct ByAnyChar { std::string d; explicit ByAnyChar(string_view x) : d(x) {} std::pair<size_t, size_t> Find(string_view s, size_t p) const { auto i = s.find_first_of(d, p); return {i, 1}; } };
struct ByLength { size_t n; explicit ByLength(size_t x) : n(x) {} std::pair<size_t, size_t> Find(string_view s, size_t p) const { return {p + n < s.size() ? p + n : string_view::npos, 0}; } };
template <class D> struct ShimMax { D d; int left; std::pair<size_t, size_t> Find(string_view s, size_t p) { if (left-- <= 0) return {string_view::npos, 0}; return d.Find(s, p); } };
inline ByChar ShimDelim(char c) { return ByChar(c); }
inline ByString ShimDelim(string_view s) { return ByString(s); }
inline ByString ShimDelim(const char* s) { return ByString(s); }
inline ByString ShimDelim(const std::string& s) { return ByString(s); }
template <class D, class = decltype(&D::Find)> D ShimDelim(D d) { return d; }
template <class D> auto MaxSplits(D d, int n) { auto x = ShimDelim(d); return ShimMax<decltype(x)>{x, n}; }
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
class ShimSplit {
 public:
  std::shared_ptr<std::string> own; std::vector<string_view> v;
  template <class C, class = typename C::value_type, class = std::enable_if_t<std::is_constructible_v<typename C::value_type, string_view>>>
  operator C() const { C c; for (auto x : v) c.insert(c.end(), typename C::value_type(x)); return c; }
  operator std::pair<std::string, std::string>() const { return {v.size() > 0 ? std::string(v[0]) : "", v.size() > 1 ? std::string(v[1]) : ""}; }
  operator std::pair<string_view, string_view>() const { return {v.size() > 0 ? v[0] : "", v.size() > 1 ? v[1] : ""}; }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
};
template <class D, class P> ShimSplit ShimDoSplit(string_view s, D d, P p) {
  ShimSplit r; size_t pos = 0;
  while (true) {
    auto [i, n] = d.Find(s, pos);
    string_view t = s.substr(pos, i == string_view::npos ? string_view::npos : i - pos);
    if (p(t)) r.v.push_back(t);
    if (i == string_view::npos) break;
    pos = i + n;
  }
  return r;
}
template <class D, class P> ShimSplit StrSplit(std::string&& s, D d, P p) { auto o = std::make_shared<std::string>(std::move(s)); auto r = ShimDoSplit(*o, ShimDelim(d), p); r.own = o; return r; }
template <class D> ShimSplit StrSplit(std::string&& s, D d) { return StrSplit(std::move(s), d, AllowEmpty()); }
template <class S, class D, class P, class = std::enable_if_t<std::is_convertible_v<S, string_view> && !std::is_same_v<S, std::string>>> ShimSplit StrSplit(S&& s, D d, P p) { return ShimDoSplit(string_view(s), ShimDelim(d), p); }
template <class S, class D, class = std::enable_if_t<std::is_convertible_v<S, string_view> && !std::is_same_v<S, std::string>>> ShimSplit StrSplit(S&& s, D d) { return ShimDoSplit(string_view(s), ShimDelim(d), AllowEmpty()); }
}  // namespace absl
