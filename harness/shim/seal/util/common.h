#pragma once
#include <cstdint>
namespace seal::util {
template <typename T>
inline T reverse_bits(T x, int n) { T r = 0; for (int i = 0; i < n; ++i) { r = (r << 1) | (x & 1); x >>= 1; } return r; }
}
