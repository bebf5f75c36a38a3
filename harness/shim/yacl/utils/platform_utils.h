#pragma once
#include <cstdlib>
namespace yacl {
// VERIF_AVX512=1 makes the code take its multi-buffer path (see crypto_mb/x25519.h)
inline bool hasAVX512ifma() { const char* e = getenv("VERIF_AVX512"); return e && *e == '1'; }
inline bool hasAVX2() { return true; }
inline bool hasAESni() { return true; }
inline bool hasBMI2() { return true; }
}  // namespace yacl
