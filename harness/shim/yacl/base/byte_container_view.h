#pragma once
#include <array>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
namespace yacl {
class ByteContainerView {
 public:
  using value_type = const uint8_t;
  constexpr ByteContainerView() = default;
  ByteContainerView(const void* p, size_t n) : p_((const uint8_t*)p), n_(n) {}
  template <typename T, std::enable_if_t<sizeof(T) == 1, int> = 0>
  ByteContainerView(const T* p, size_t n) : p_((const uint8_t*)p), n_(n) {}
  ByteContainerView(const char* s) : p_((const uint8_t*)s), n_(strlen(s)) {}
  ByteContainerView(const Buffer& b) : p_(b.data<uint8_t>()), n_(b.size()) {}
  template <typename C, std::enable_if_t<!std::is_same_v<std::decay_t<C>, Buffer> && !std::is_same_v<std::decay_t<C>, ByteContainerView> &&
                                             sizeof(*std::declval<const C&>().data()) == 1, int> = 0>
  ByteContainerView(const C& c) : p_((const uint8_t*)c.data()), n_(c.size()) {}
  const uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return p_; }
  const uint8_t* end() const { return p_ + n_; }
  const uint8_t* cbegin() const { return p_; }
  const uint8_t* cend() const { return p_ + n_; }
  const uint8_t& operator[](size_t i) const { return p_[i]; }
  const uint8_t& at(size_t i) const { return p_[i]; }
  ByteContainerView subspan(size_t pos, size_t len = (size_t)-1) const {
    if (pos > n_) throw std::out_of_range("subspan");
    return {p_ + pos, std::min(len, n_ - pos)};
  }
  operator std::string_view() const { return {(const char*)p_, n_}; }
  operator absl::Span<const uint8_t>() const { return {p_, n_}; }
  explicit operator std::string() const { return std::string((const char*)p_, n_); }
  explicit operator std::vector<uint8_t>() const { return {p_, p_ + n_}; }
  explicit operator Buffer() const { return Buffer((const void*)p_, n_); }
  bool operator==(const ByteContainerView& o) const { return n_ == o.n_ && (n_ == 0 || memcmp(p_, o.p_, n_) == 0); }
  bool operator!=(const ByteContainerView& o) const { return !(*this == o); }
 private:
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};
template <typename T>
inline ByteContainerView SerializePodView(const T& t) { return {(const void*)&t, sizeof(t)}; }
inline std::ostream& operator<<(std::ostream& os, const ByteContainerView& b) { return os << std::string_view(b); }
}  // namespace yacl
