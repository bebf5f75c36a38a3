#pragma once
#include <array>
#include <cstring>
#include "yacl/crypto/hash/hash_interface.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
template <size_t N, typename H> std::array<uint8_t, N> ShimH(H h, ByteContainerView d) {
  h.Update(d); auto v = h.CumulativeHash(); std::array<uint8_t, N> a; memcpy(a.data(), v.data(), N); return a; }
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) { return ShimH<32>(Sha256Hash(), d); }
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { return ShimH<32>(Sm3Hash(), d); }
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) { return ShimH<32>(Blake3Hash(), d); }
inline std::array<uint8_t, 64> Blake2(ByteContainerView d) { return ShimH<64>(ShimHash(HashAlgorithm::BLAKE2B, 64), d); }
inline uint128_t Blake3_128(ByteContainerView d) { auto a = ShimH<16>(Blake3Hash(16), d); uint128_t v; memcpy(&v, a.data(), 16); return v; }
inline uint128_t Sm3_128(ByteContainerView d) { auto a = Sm3(d); uint128_t v; memcpy(&v, a.data(), 16); return v; }
}
