#pragma once
#include <cstdio>
#include "absl/strings/string_view.h"
namespace absl {
template <class T> auto ShimFa(const T& v) { if constexpr (std::is_same_v<T, std::string>) return v.c_str(); else return v; }
template <class... A> std::string StrFormat(const char* f, const A&... a) { int n = snprintf(nullptr, 0, f, ShimFa(a)...); std::string r(n + 1, 0); snprintf(r.data(), n + 1, f, ShimFa(a)...); r.resize(n); return r; }
}  // namespace absl
