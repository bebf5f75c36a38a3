#pragma once
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl::math {
// GF(2^128) with x^128 + x^7 + x^2 + x + 1
inline uint128_t GfMul128(uint128_t a, uint128_t b) {
  uint128_t r = 0;
  for (int i = 127; i >= 0; --i) {
    bool c = (r >> 127) & 1;
    r <<= 1;
    if (c) r ^= 0x87;
    if ((b >> i) & 1) r ^= a;
  }
  return r;
}
inline uint128_t GfMul128(absl::Span<const uint128_t> a, absl::Span<const uint128_t> b) { uint128_t r = 0; for (size_t i = 0; i < a.size(); ++i) r ^= GfMul128(a[i], b[i]); return r; }
inline uint128_t GfMul128(absl::Span<const uint128_t> a, absl::Span<const uint64_t> b) { uint128_t r = 0; for (size_t i = 0; i < a.size(); ++i) r ^= GfMul128(a[i], (uint128_t)b[i]); return r; }
}  // namespace yacl::math
