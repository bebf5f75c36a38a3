#pragma once
#include <cstring>
#include <random>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/block.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kGmSm4CtrDrbg, kAesEcb, kSm4Ecb };
struct ShimStream {
  uint64_t a, b;
  explicit ShimStream(uint128_t s) : a((uint64_t)s ^ 0x243f6a8885a308d3ull), b((uint64_t)(s >> 64) ^ 0x13198a2e03707344ull) { for (int i = 0; i < 4; ++i) next(); }
  static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t next() { a += 0x9e3779b97f4a7c15ull; uint64_t r = mix(a ^ mix(b)); b = b * 6364136223846793005ull + 1442695040888963407ull; return r; }
  void fill(void* p, size_t n) { auto* c = (uint8_t*)p; while (n) { uint64_t v = next(); size_t k = n < 8 ? n : 8; memcpy(c, &v, k); c += k; n -= k; } }
};
inline uint64_t FillPRand(int, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<uint8_t> out) { ShimStream s(seed ^ count); s.fill(out.data(), out.size()); return count + 1; }
template <typename T>
inline std::vector<T> PrgAesCtr(uint128_t seed, size_t n) { std::vector<T> v(n); ShimStream s(seed); s.fill(v.data(), n * sizeof(T)); return v; }
template <typename T>
inline void PrgAesCtr(uint128_t seed, absl::Span<T> out) { ShimStream s(seed); s.fill(out.data(), out.size() * sizeof(T)); }
template <typename T, size_t B = 128>
class Prg {
 public:
  Prg() : s_(SecureRandSeed()) {}
  explicit Prg(uint128_t seed, PRG_MODE = PRG_MODE::kNistAesCtrDrbg) : s_(seed) {}
  Prg(uint128_t seed, uint64_t ctr, PRG_MODE = PRG_MODE::kNistAesCtrDrbg) : s_(seed ^ ctr) {}
  T operator()() { T v; s_.fill(&v, sizeof v); return v; }
  template <typename Y, typename = std::enable_if_t<std::is_trivially_copyable_v<Y>>>
  void Fill(absl::Span<Y> out) { s_.fill(out.data(), out.size() * sizeof(Y)); }
  void SetSeed(uint128_t s) { s_ = ShimStream(s); }
  uint64_t Counter() const { return 0; }
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  using result_type = T;
 private:
  ShimStream s_;
};
}
