#pragma once
#include "fmt/format.h"
#include "absl/strings/string_view.h"
namespace absl {
template <class... A> std::string StrCat(const A&... a) { std::string r; ((r += fmt::format("{}", a)), ...); return r; }
template <class... A> void StrAppend(std::string* d, const A&... a) { *d += StrCat(a...); }
}  // namespace absl
