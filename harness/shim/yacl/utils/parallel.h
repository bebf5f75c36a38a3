#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <exception>
#include <functional>
#include <future>
#include <thread>
#include <vector>
#ifndef VERIF_PARALLEL
#define VERIF_PARALLEL
namespace yacl {
// chunks really run on several threads, in an arbitrary order; an exception of any chunk is rethrown.
inline int get_num_threads() { return 4; }
inline void set_num_threads(int) {}
inline bool in_parallel_region() { return false; }
template <typename F>
void parallel_for(int64_t begin, int64_t end, int64_t grain, const F& f) {
  if (begin >= end) return;
  int64_t n = end - begin, g = std::max<int64_t>(1, grain);
  int64_t chunks = std::min<int64_t>(get_num_threads(), (n + g - 1) / g);
  if (chunks <= 1) { f(begin, end); return; }
  int64_t step = (n + chunks - 1) / chunks;
  std::vector<std::thread> ts;
  std::exception_ptr err;
  std::atomic_flag once = ATOMIC_FLAG_INIT;
  for (int64_t b = begin; b < end; b += step) {
    int64_t e = std::min(end, b + step);
    ts.emplace_back([&, b, e] {
      try { f(b, e); } catch (...) { if (!once.test_and_set()) err = std::current_exception(); }
    });
  }
  for (auto& t : ts) t.join();
  if (err) std::rethrow_exception(err);
}
template <typename F>
void parallel_for(int64_t begin, int64_t end, const F& f) { parallel_for(begin, end, 1, f); }
template <typename R, typename F, typename S>
R parallel_reduce(int64_t begin, int64_t end, int64_t grain, const F& f, const S& sf) { return f(begin, end); }
}  // namespace yacl
#endif
