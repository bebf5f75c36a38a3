#pragma once
#include <functional>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
namespace absl {
template <class T> struct Hash { size_t operator()(const T& v) const {
  if constexpr (std::is_same_v<T, unsigned __int128> || std::is_same_v<T, __int128>) return std::hash<uint64_t>()((uint64_t)v * 0x9E3779B97F4A7C15ull ^ (uint64_t)((unsigned __int128)v >> 64));
  else return std::hash<T>()(v); } };
template <class A, class B> struct Hash<std::pair<A, B>> { size_t operator()(const std::pair<A, B>& v) const { return Hash<A>()(v.first) * 1000003 ^ Hash<B>()(v.second); } };
template <class T> struct Hash<std::vector<T>> { size_t operator()(const std::vector<T>& v) const { size_t h = v.size(); for (auto& x : v) h = h * 1000003 ^ Hash<T>()(x); return h; } };
template <class... A> struct Hash<std::tuple<A...>> { size_t operator()(const std::tuple<A...>& v) const { size_t h = 7; std::apply([&](auto&... x) { ((h = h * 1000003 ^ Hash<std::decay_t<decltype(x)>>()(x)), ...); }, v); return h; } };
template <class T> size_t HashOf(const T& v) { return Hash<T>()(v); }
}  // namespace absl
