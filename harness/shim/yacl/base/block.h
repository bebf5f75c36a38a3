#pragma once
#include <emmintrin.h>
#include <smmintrin.h>
#include <wmmintrin.h>
#include <array>
#include <cstring>
#include "yacl/base/int128.h"
#include "yacl/base/byte_container_view.h"
namespace yacl {
struct alignas(16) block {
  __m128i mData;
  block() = default;
  block(const block&) = default;
  block& operator=(const block&) = default;
  block(const __m128i& x) : mData(x) {}
  block(uint64_t hi, uint64_t lo) : mData(_mm_set_epi64x(hi, lo)) {}
  block(const uint128_t& v) { memcpy(&mData, &v, 16); }
  block& operator=(const uint128_t& v) { memcpy(&mData, &v, 16); return *this; }
  operator const __m128i&() const { return mData; }
  operator __m128i&() { return mData; }
  operator uint128_t() const { uint128_t v; memcpy(&v, &mData, 16); return v; }
  template <typename T> std::enable_if_t<std::is_standard_layout_v<T> && std::is_trivial_v<T> && (sizeof(T) <= 16) && (16 % sizeof(T) == 0), std::array<T, 16 / sizeof(T)>> as() const {
    std::array<T, 16 / sizeof(T)> a; memcpy(&a, &mData, 16); return a; }
  block operator^(const block& o) const { return _mm_xor_si128(mData, o.mData); }
  block operator^(const uint128_t& o) const { return *this ^ block(o); }
  block operator&(const uint128_t& o) const { return *this & block(o); }
  block& operator^=(const block& o) { mData = _mm_xor_si128(mData, o.mData); return *this; }
  block operator&(const block& o) const { return _mm_and_si128(mData, o.mData); }
  block operator|(const block& o) const { return _mm_or_si128(mData, o.mData); }
  block operator~() const { return _mm_xor_si128(mData, _mm_set1_epi32(-1)); }
  block operator<<(uint8_t r) const { uint128_t v = *this; v <<= r; return block(v); }
  block operator>>(uint8_t r) const { uint128_t v = *this; v >>= r; return block(v); }
  block operator+(const block& o) const { return _mm_add_epi64(mData, o.mData); }
  block& operator+=(const block& o) { mData = _mm_add_epi64(mData, o.mData); return *this; }
  block operator-(const block& o) const { return _mm_sub_epi64(mData, o.mData); }
  bool operator==(const block& o) const { return memcmp(&mData, &o.mData, 16) == 0; }
  bool operator!=(const block& o) const { return !(*this == o); }
  bool operator<(const block& o) const { return (uint128_t)*this < (uint128_t)o; }
};
}  // namespace yacl
