#pragma once
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "yacl/base/exception.h"
namespace yacl {
class Buffer {
 public:
  Buffer() = default;
  Buffer(int64_t size) { resize(size); }
  Buffer(int64_t size, int64_t cap) { v_.reserve(cap); resize(size); }
  Buffer(const void* p, size_t n) : v_((const uint8_t*)p, (const uint8_t*)p + n) {}
  Buffer(void* p, size_t n, const std::function<void(void*)>& del) : v_((uint8_t*)p, (uint8_t*)p + n) { if (del) del(p); }
  template <typename C, std::enable_if_t<!std::is_integral_v<C> && !std::is_same_v<std::decay_t<C>, Buffer> && sizeof(*std::declval<const C&>().data()) >= 1, int> = 0>
  explicit Buffer(const C& c) : Buffer((const void*)c.data(), c.size() * sizeof(*c.data())) {}
  explicit Buffer(const char* s) : Buffer((const void*)s, strlen(s)) {}
  template <typename T = void> T* data() { return reinterpret_cast<T*>(v_.data()); }
  template <typename T = void> const T* data() const { return reinterpret_cast<const T*>(v_.data()); }
  int64_t size() const { return v_.size(); }
  int64_t capacity() const { return v_.capacity(); }
  void resize(int64_t n) { YACL_ENFORCE(n >= 0); v_.resize(n); }
  void reserve(int64_t n) { v_.reserve(n); }
  void reset() { v_.clear(); }
  operator std::string_view() const { return {(const char*)v_.data(), v_.size()}; }
  bool operator==(const Buffer& o) const { return v_ == o.v_; }
  bool operator!=(const Buffer& o) const { return v_ != o.v_; }
 private:
  std::vector<uint8_t> v_;
};
inline std::ostream& operator<<(std::ostream& os, const Buffer& b) { return os << std::string_view(b); }
}  // namespace yacl
