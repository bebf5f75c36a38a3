#pragma once
#include <functional>
#include <utility>
namespace yacl {
class scope_guard_impl {
 public:
  explicit scope_guard_impl(std::function<void()> f) : f_(std::move(f)) {}
  ~scope_guard_impl() { if (f_) f_(); }
  scope_guard_impl(const scope_guard_impl&) = delete;
 private:
  std::function<void()> f_;
};
}
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
struct VerifOnExit { template <class F> auto operator+(F f) { return new yacl::scope_guard_impl(std::function<void()>(std::move(f))); } };
#define ON_SCOPE_EXIT(...) yacl::scope_guard_impl VERIF_CAT(verif_guard_, __LINE__){std::function<void()>(__VA_ARGS__)}
namespace yacl { template <class F> struct SG { F f; ~SG() { f(); } }; template <class F> SG(F) -> SG<F>; }
