#pragma once
#include <cstdint>
#include <ostream>
#include <string>
namespace absl {
// the compiler's own 128-bit integers, with the few functions of absl that are used with them
struct uint128 { unsigned __int128 v; constexpr uint128(unsigned __int128 x = 0) : v(x) {} constexpr operator unsigned __int128() const { return v; } };
struct int128 { __int128 v; constexpr int128(__int128 x = 0) : v(x) {} constexpr operator __int128() const { return v; } };
constexpr uint128 MakeUint128(uint64_t h, uint64_t l) { return uint128((unsigned __int128)h << 64 | l); }
constexpr uint64_t Uint128Low64(uint128 v) { return (uint64_t)v.v; }
constexpr uint64_t Uint128High64(uint128 v) { return (uint64_t)(v.v >> 64); }
inline std::string ShimU128(unsigned __int128 v) { std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
inline std::ostream& operator<<(std::ostream& o, uint128 v) { return o << ShimU128(v.v); }
inline std::ostream& operator<<(std::ostream& o, int128 v) { return v.v < 0 ? o << "-" << ShimU128(-(unsigned __int128)v.v) : o << ShimU128(v.v); }
}  // namespace absl
