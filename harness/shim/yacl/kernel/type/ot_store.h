#pragma once
#include <array>
#include <memory>
#include <vector>
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
// 1-out-of-2 OT correlations. `shim_seed` is common to both ends: the OT extensions here are ideal
// functionalities (correct outputs, no security), so that the code built on top of them runs unchanged.
class OtSendStore {
 public:
  std::vector<std::array<uint128_t, 2>> b; uint128_t shim_seed = 0; uint128_t delta_ = 0;
  uint128_t GetBlock(uint64_t i, uint64_t k) const { return b.at(i)[k]; }
  size_t Size() const { return b.size(); }
  uint128_t GetDelta() const { return delta_; }
  OtSendStore Slice(uint64_t s, uint64_t e) const { OtSendStore o = *this; o.b.assign(b.begin() + s, b.begin() + e); return o; }
};
class OtRecvStore {
 public:
  std::vector<uint128_t> b; std::vector<uint8_t> c; uint128_t shim_seed = 0;
  uint128_t GetBlock(uint64_t i) const { return b.at(i); }
  uint8_t GetChoice(uint64_t i) const { return c.at(i); }
  size_t Size() const { return b.size(); }
  OtRecvStore Slice(uint64_t s, uint64_t e) const { OtRecvStore o = *this; o.b.assign(b.begin() + s, b.begin() + e); o.c.assign(c.begin() + s, c.begin() + e); return o; }
};
}  // namespace yacl::crypto
