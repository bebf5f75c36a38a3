#pragma once
#include <cstdint>
#include <stdexcept>
namespace libdivide {
struct libdivide_u64_t { uint64_t d; };
struct libdivide_u32_t { uint32_t d; };
inline libdivide_u64_t libdivide_u64_gen(uint64_t d) { if (!d) throw std::runtime_error("libdivide: divide by zero"); return {d}; }
inline uint64_t libdivide_u64_do(uint64_t x, const libdivide_u64_t* p) { return x / p->d; }
inline libdivide_u32_t libdivide_u32_gen(uint32_t d) { if (!d) throw std::runtime_error("libdivide: divide by zero"); return {d}; }
inline uint32_t libdivide_u32_do(uint32_t x, const libdivide_u32_t* p) { return x / p->d; }
}  // namespace libdivide
