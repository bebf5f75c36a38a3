#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
#include "yacl/math/galois_field/gf_intrinsic.h"
#include "yacl/secparam.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40 };
// Ideal VOLE: sender (delta, b), receiver (a, c) with c = b + delta * a.
class SilentVoleSender {
 public:
  explicit SilentVoleSender(CodeType = CodeType::ExAcc7, bool = false) { delta_ = SecureRandU128(); }
  SilentVoleSender(CodeType, uint128_t delta, bool = false) : delta_(delta) {}
  void Send(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b) { Do(ctx, b); }
  void SfSend(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b) { Do(ctx, b); }
  uint128_t GetDelta() const { return delta_; }
 private:
  void Do(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> b) {
    uint128_t s = SecureRandU128(); uint128_t m[3] = {s, delta_, b.size()};
    ctx->SendAsync(ctx->NextRank(), ByteContainerView(m, sizeof(m)), "IDEAL:VOLE");
    Prg<uint128_t> p(s); for (auto& x : b) x = p();
  }
  uint128_t delta_;
};
class SilentVoleReceiver {
 public:
  explicit SilentVoleReceiver(CodeType = CodeType::ExAcc7, bool = false) {}
  void Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> c) { Do(ctx, a, c); }
  void SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> c) { Do(ctx, a, c); }
 private:
  template <class T> void Do(const std::shared_ptr<link::Context>& ctx, absl::Span<T> a, absl::Span<uint128_t> c) {
    auto buf = ctx->Recv(ctx->NextRank(), "IDEAL:VOLE"); uint128_t m[3]; YACL_ENFORCE(buf.size() == (int64_t)sizeof(m)); memcpy(m, buf.data(), sizeof(m));
    YACL_ENFORCE(m[2] == a.size() && a.size() == c.size(), "vole size mismatch");
    Prg<uint128_t> p(m[0]), q(SecureRandU128());
    // powers delta*x^k once, so that each product is a handful of xors
    uint128_t pw[128]; pw[0] = m[1]; for (int k = 1; k < 128; ++k) pw[k] = yacl::math::GfMul128(pw[k - 1], 2);
    for (size_t i = 0; i < a.size(); ++i) {
      a[i] = (T)q(); uint128_t x = a[i], r = 0;
      for (int k = 0; x; ++k, x >>= 1) if (x & 1) r ^= pw[k];
      c[i] = p() ^ r;
    }
  }
};
}  // namespace yacl::crypto
