#pragma once
#include <cstdint>
namespace seal::util {
template <typename A, typename B>
inline void multiply_uint64(A a, B b, unsigned long long* r) { auto p = (unsigned __int128)a * b; r[0] = (unsigned long long)p; r[1] = (unsigned long long)(p >> 64); }
template <typename A, typename B>
inline void multiply_uint64_hw64(A a, B b, unsigned long long* hw) { *hw = (unsigned long long)(((unsigned __int128)a * b) >> 64); }
template <typename A, typename B, typename R>
inline unsigned char add_uint64(A a, B b, R* out) { std::uint64_t s = (std::uint64_t)a + (std::uint64_t)b; *out = s; return s < (std::uint64_t)a; }
// numerator (3 words) divided by one word: quotient out, remainder left in numerator
inline void divide_uint192_inplace(std::uint64_t* num, std::uint64_t den, std::uint64_t* quo) {
  unsigned __int128 r = 0;
  for (int i = 2; i >= 0; --i) { r = (r << 64) | num[i]; quo[i] = (std::uint64_t)(r / den); r %= den; }
  num[0] = (std::uint64_t)r; num[1] = num[2] = 0;
}
}
