#pragma once
#include <string>
#include <string_view>
#include <boost/dynamic_bitset.hpp>
#include "yacl/base/int128.h"
namespace yacl {
template <typename Block = unsigned long, typename Alloc = std::allocator<Block>>
class dynamic_bitset : public boost::dynamic_bitset<uint64_t> {
 public:
  using B = boost::dynamic_bitset<uint64_t>;
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long v = 0) : B(n, v) {}
  explicit dynamic_bitset(const std::string& s) : B(s) {}
  dynamic_bitset(const B& b) : B(b) {}
  std::string to_string() const { std::string s; boost::to_string(static_cast<const B&>(*this), s); return s; }
  bool operator[](size_t i) const { return B::operator[](i); }
  B::reference operator[](size_t i) { return B::operator[](i); }
  void push_back(bool b) { B::push_back(b); }
};
}  // namespace yacl
