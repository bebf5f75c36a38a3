#pragma once
#include "absl/strings/match.h"
namespace absl {
inline string_view StripPrefix(string_view a, string_view b) { return StartsWith(a, b) ? a.substr(b.size()) : a; }
inline string_view StripSuffix(string_view a, string_view b) { return EndsWith(a, b) ? a.substr(0, a.size() - b.size()) : a; }
inline bool ConsumePrefix(string_view* a, string_view b) { if (!StartsWith(*a, b)) return false; a->remove_prefix(b.size()); return true; }
inline bool ConsumeSuffix(string_view* a, string_view b) { if (!EndsWith(*a, b)) return false; a->remove_suffix(b.size()); return true; }
}  // namespace absl
