#pragma once
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <utility>
#include "absl/numeric/int128.h"
#ifndef VERIF_INT128
#define VERIF_INT128
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace std {
#ifdef __STRICT_ANSI__
inline std::ostream& operator<<(std::ostream& os, uint128_t v) {
  return os << absl::uint128(v);
}
inline std::ostream& operator<<(std::ostream& os, int128_t v) {
  return os << absl::int128(v);
}
template <> struct hash<uint128_t> {
  size_t operator()(uint128_t v) const noexcept {
    return std::hash<uint64_t>()((uint64_t)v) ^ (std::hash<uint64_t>()((uint64_t)(v >> 64)) * 31);
  }
};
template <> struct hash<int128_t> {
  size_t operator()(int128_t v) const noexcept { return hash<uint128_t>()((uint128_t)v); }
};
#endif
}  // namespace std
namespace yacl {
constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
constexpr uint128_t Uint128Min() { return 0; }
constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) { return (static_cast<uint128_t>(hi) << 64) | lo; }
constexpr int128_t MakeInt128(uint64_t hi, uint64_t lo) { return (int128_t)MakeUint128(hi, lo); }
constexpr int128_t Int128Max() { return (int128_t)(Uint128Max() >> 1); }
constexpr int128_t Int128Min() { return -Int128Max() - 1; }
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {uint64_t(v >> 64), uint64_t(v)}; }
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {int64_t(v >> 64), uint64_t(v)}; }
}  // namespace yacl
#endif
