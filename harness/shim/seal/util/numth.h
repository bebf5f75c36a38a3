#pragma once
#include "seal/util/uintarithsmallmod.h"
namespace seal::util {
inline bool is_primitive_root(std::uint64_t r, std::uint64_t degree, const Modulus& m) { return r != 0 && exponentiate_uint_mod(r, degree >> 1, m) == m.value() - 1; }
inline bool try_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& out) {
  if ((m.value() - 1) % degree) return false;
  for (std::uint64_t g = 2; g < 200; ++g) {
    std::uint64_t r = exponentiate_uint_mod(g, (m.value() - 1) / degree, m);
    if (is_primitive_root(r, degree, m)) { out = r; return true; }
  }
  return false;
}
inline bool try_minimal_primitive_root(std::uint64_t degree, const Modulus& m, std::uint64_t& out) {
  std::uint64_t root;
  if (!try_primitive_root(degree, m, root)) return false;
  std::uint64_t sq = multiply_uint_mod(root, root, m), cur = root, best = root;
  for (std::uint64_t i = 0; i < degree; i += 2) { if (cur < best) best = cur; cur = multiply_uint_mod(cur, sq, m); }
  out = best;
  return true;
}
}
