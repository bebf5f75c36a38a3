#pragma once
// Stand-in for Microsoft SEAL's word arithmetic (the part psi/algorithm/spiral
// uses), written from SEAL's documented interface with plain 128-bit division.
#include <array>
#include <cstdint>
#include <stdexcept>
namespace seal {
class Modulus {
 public:
  Modulus(std::uint64_t v = 0) : v_(v) {
    if (v == 0) return;
    if (v == 1 || (v >> 61)) throw std::invalid_argument("value can be at most 61-bit and cannot be 1");
    using u128 = unsigned __int128;
    // floor(2^128 / v), low and high words, and the remainder
    u128 all = ~(u128)0, q = all / v, r = all % v;
    if (r + 1 == v) { ++q; r = 0; } else ++r;
    ratio_ = {(std::uint64_t)q, (std::uint64_t)(q >> 64), (std::uint64_t)r};
  }
  std::uint64_t value() const { return v_; }
  const std::array<std::uint64_t, 3>& const_ratio() const { return ratio_; }
  bool operator==(const Modulus& o) const { return v_ == o.v_; }
 private:
  std::uint64_t v_ = 0;
  std::array<std::uint64_t, 3> ratio_{{0, 0, 0}};
};
}  // namespace seal
