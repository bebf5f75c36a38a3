#pragma once
#include <cstdint>
#include "yacl/base/int128.h"
namespace yacl::math {
constexpr size_t Log2Floor(uint64_t x) { size_t r = 0; while (x >>= 1) ++r; return r; }
constexpr size_t Log2Ceil(uint64_t x) { return x <= 1 ? 0 : Log2Floor(x - 1) + 1; }
constexpr uint64_t DivCeil(uint64_t x, uint64_t y) { return (x + y - 1) / y; }
constexpr uint64_t RoundUpTo(uint64_t x, uint64_t s) { return DivCeil(x, s) * s; }
inline uint64_t Lcm(uint64_t a, uint64_t b) { uint64_t x = a, y = b; while (y) { auto t = x % y; x = y; y = t; } return a / x * b; }
}
