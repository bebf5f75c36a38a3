#pragma once
#include "absl/numeric/bits.h"
#include "spdlog/spdlog.h"
#include <cstring>
#include <random>
#include <vector>
#include <openssl/rand.h>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
#include "yacl/base/secparam.h"
namespace yacl::crypto {
inline void FillRand(char* p, uint64_t n, bool = false) { if (n) RAND_bytes((unsigned char*)p, n); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) { std::vector<uint8_t> v(n); FillRand((char*)v.data(), n); return v; }
inline std::vector<uint8_t> FastRandBytes(uint64_t n) { return RandBytes(n); }
inline std::vector<uint8_t> SecureRandBytes(uint64_t n) { return RandBytes(n); }
inline void RandBytes(absl::Span<char> s) { FillRand(s.data(), s.size()); }
template <typename T> T ShimRand() { T v; FillRand((char*)&v, sizeof v); return v; }
inline uint32_t RandU32(bool = false) { return ShimRand<uint32_t>(); }
inline uint64_t RandU64(bool = false) { return ShimRand<uint64_t>(); }
inline uint128_t RandU128(bool = false) { return ShimRand<uint128_t>(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint32_t FastRandU32() { return RandU32(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint32_t SecureRandU32() { return RandU32(); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline uint128_t DrbgRandSeed() { return RandU128(); }
template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
std::vector<T> RandVec(uint64_t n, bool = false) { std::vector<T> v(n); FillRand((char*)v.data(), n * sizeof(T)); return v; }
template <typename T = dynamic_bitset<uint128_t>>
T RandBits(uint64_t n, bool = false) { T r(n); for (uint64_t i = 0; i < n; ++i) r[i] = RandU32() & 1; return r; }
template <typename T = dynamic_bitset<uint128_t>> T SecureRandBits(uint64_t n) { return RandBits<T>(n); }
template <typename T = dynamic_bitset<uint128_t>> T FastRandBits(uint64_t n) { return RandBits<T>(n); }
template <typename T>
struct YaclStdUrbg {
  using result_type = T;
  static constexpr T min() { return 0; }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { return ShimRand<T>(); }
};
template <typename T>
class YaclReplayUrbg {
 public:
  using result_type = T;
  explicit YaclReplayUrbg(uint128_t seed, uint64_t ctr = 0) : lo_((uint64_t)seed), hi_((uint64_t)(seed >> 64)), ctr_(ctr) {}
  static constexpr T min() { return 0; }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { return (T)Mix(Mix(lo_ + 0x9e3779b97f4a7c15ull * ++ctr_) ^ hi_); }
  uint64_t GetCounter() const { return ctr_; }
 private:
  static uint64_t Mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t lo_, hi_, ctr_;
};
}
