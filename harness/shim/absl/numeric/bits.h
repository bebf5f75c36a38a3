#pragma once
#include <type_traits>
#include <cstdint>
namespace absl {
template <class T> constexpr T bit_ceil(T x) { T r = 1; while (r < x) r <<= 1; return r; }
template <class T> constexpr T bit_floor(T x) { if (!x) return 0; T r = 1; while (r <= x / 2) r <<= 1; return r; }
template <class T> constexpr int popcount(T x) { int c = 0; while (x) { c += x & 1; x >>= 1; } return c; }
template <class T> constexpr T bit_width(T x) { T c = 0; while (x) { ++c; x >>= 1; } return c; }
template <class T> constexpr bool has_single_bit(T x) { return x && !(x & (x - 1)); }
template <class T> constexpr int countr_zero(T x) { if (!x) return sizeof(T) * 8; int c = 0; while (!(x & 1)) { ++c; x >>= 1; } return c; }
template <class T> constexpr int countl_zero(T x) { return (int)(sizeof(T) * 8) - (int)bit_width(x); }
}  // namespace absl
