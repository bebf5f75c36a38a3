#pragma once
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "absl/hash/hash.h"
namespace absl {
template <class K, class V, class H = Hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E, A> {
 public:
  using B = std::unordered_map<K, V, H, E, A>;
  using B::B; using B::find; using B::count; using B::erase;
  template <class Q> auto find(const Q& q) { return B::find(K(q)); }
  template <class Q> auto find(const Q& q) const { return B::find(K(q)); }
  template <class Q> size_t count(const Q& q) const { return B::count(K(q)); }
  template <class Q = K> bool contains(const Q& q) const { return B::count(K(q)) > 0; }
};
template <class K, class H = Hash<K>, class E = std::equal_to<K>, class A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, H, E, A> {
 public:
  using B = std::unordered_set<K, H, E, A>;
  using B::B; using B::find; using B::count; using B::erase;
  template <class Q> auto find(const Q& q) { return B::find(K(q)); }
  template <class Q> auto find(const Q& q) const { return B::find(K(q)); }
  template <class Q> size_t count(const Q& q) const { return B::count(K(q)); }
  template <class Q = K> bool contains(const Q& q) const { return B::count(K(q)) > 0; }
};
template <class... A> using node_hash_map = flat_hash_map<A...>;
template <class... A> using node_hash_set = flat_hash_set<A...>;
}  // namespace absl
