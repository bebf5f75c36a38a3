#pragma once
#include <initializer_list>
#include "absl/strings/str_cat.h"
namespace absl {
struct ShimAlnum { template <class T> void operator()(std::string* o, const T& v) const { *o += fmt::format("{}", v); } };
inline ShimAlnum AlphaNumFormatter() { return {}; }
template <class It, class F> std::string ShimJoin(It b, It e, string_view sep, F&& f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); } return r; }
template <class R> std::string StrJoin(const R& r, string_view sep) { return ShimJoin(std::begin(r), std::end(r), sep, ShimAlnum()); }
template <class T> std::string StrJoin(std::initializer_list<T> r, string_view sep) { return ShimJoin(r.begin(), r.end(), sep, ShimAlnum()); }
template <class R, class F, class = std::enable_if_t<!std::is_convertible_v<F, string_view>>> std::string StrJoin(const R& r, string_view sep, F&& f) { return ShimJoin(std::begin(r), std::end(r), sep, f); }
template <class It> std::string StrJoin(It b, It e, string_view sep) { return ShimJoin(b, e, sep, ShimAlnum()); }
template <class It, class F> std::string StrJoin(It b, It e, string_view sep, F&& f) { return ShimJoin(b, e, sep, f); }
}  // namespace absl
