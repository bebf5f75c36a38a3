#pragma once
#include "seal/modulus.h"
namespace seal::util {
inline std::uint64_t multiply_uint_mod(std::uint64_t a, std::uint64_t b, const Modulus& m) { return (std::uint64_t)((unsigned __int128)a * b % m.value()); }
inline std::uint64_t exponentiate_uint_mod(std::uint64_t a, std::uint64_t e, const Modulus& m) {
  std::uint64_t r = 1 % m.value(); a %= m.value();
  for (; e; e >>= 1) { if (e & 1) r = multiply_uint_mod(r, a, m); a = multiply_uint_mod(a, a, m); }
  return r;
}
inline std::uint64_t div2_uint_mod(std::uint64_t a, const Modulus& m) { return (a & 1) ? (std::uint64_t)(((unsigned __int128)a + m.value()) >> 1) : a >> 1; }
inline bool try_invert_uint_mod(std::uint64_t a, const Modulus& m, std::uint64_t& out) {
  __int128 r0 = m.value(), r1 = a % m.value(), t0 = 0, t1 = 1;
  if (r1 == 0) return false;
  while (r1) { __int128 q = r0 / r1, x = r0 - q * r1; r0 = r1; r1 = x; x = t0 - q * t1; t0 = t1; t1 = x; }
  if (r0 != 1) return false;
  if (t0 < 0) t0 += m.value();
  out = (std::uint64_t)t0;
  return true;
}
}
