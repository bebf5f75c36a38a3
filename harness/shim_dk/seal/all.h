#pragma once
// Stand-in for the names of Microsoft SEAL that the look-up mentions. A ciphertext is its content in the clear together
// with the power it stands for; nothing here hides anything.
#include <cstdint>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "gsl/span"
namespace seal {
enum class mm_prof_opt { mm_default, mm_force_global, mm_force_new, mm_force_thread_local };
inline constexpr auto mm_force_new = mm_prof_opt::mm_force_new;
struct MemoryPoolHandle {};
struct MemoryManager { static MemoryPoolHandle GetPool(mm_prof_opt, bool = false) { return {}; } };
enum class compr_mode_type : uint8_t { none, zlib, zstd };
struct SEALContext { bool ok = true; bool parameters_set() const { return ok; } };
struct RelinKeys { int id = 0; };
struct Ciphertext {
  Ciphertext() = default;
  Ciphertext(MemoryPoolHandle) {}
  uint32_t bundle = 0, power = 0;
  std::vector<std::pair<uint32_t, std::string>> slots;  // place in the table, hash of the item there
};
template <class T> class DynArray {
 public:
  DynArray(MemoryPoolHandle = {}) {}
  DynArray(size_t n, MemoryPoolHandle = {}) : v_(n) {}
  void resize(size_t n) { v_.resize(n); }
  size_t size() const { return v_.size(); }
  T* begin() { return v_.data(); }
  T* end() { return v_.data() + v_.size(); }
  const T* cbegin() const { return v_.data(); }
  const T* cend() const { return v_.data() + v_.size(); }
  gsl::span<T> span() { return {v_.data(), v_.size()}; }
  gsl::span<const T> span() const { return {v_.data(), v_.size()}; }
 private:
  std::vector<T> v_;
};
namespace util {
template <class T, class S> T safe_cast(S v) {
  if ((v < 0 && !std::numeric_limits<T>::is_signed) || (S)(T)v != v) throw std::logic_error("cast failed");
  return (T)v;
}
}  // namespace util
}  // namespace seal
