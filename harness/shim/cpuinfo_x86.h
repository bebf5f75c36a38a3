#pragma once
namespace cpu_features {
struct X86Features { int pclmulqdq = 1, aes = 1, avx2 = 1, sse4_1 = 1, avx512ifma = 0, bmi2 = 0; };
struct X86Info { X86Features features; };
inline X86Info GetX86Info() { return {}; }
}  // namespace cpu_features
