#pragma once
#include <algorithm>
#include <numeric>
namespace absl { template <class C> void c_sort(C& c) { std::sort(c.begin(), c.end()); } template <class C, class F> void c_sort(C& c, F f) { std::sort(c.begin(), c.end(), f); }
template <class C, class V> auto c_find(C& c, const V& v) { return std::find(c.begin(), c.end(), v); } template <class C, class F> bool c_all_of(C& c, F f) { return std::all_of(c.begin(), c.end(), f); } template <class C, class F> bool c_any_of(C& c, F f) { return std::any_of(c.begin(), c.end(), f); }
template <class C, class V> V c_accumulate(const C& c, V v) { return std::accumulate(c.begin(), c.end(), v); } }
