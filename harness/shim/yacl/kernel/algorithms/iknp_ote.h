#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
template <class C> OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& ctx, const OtSendStore& base, const C& ch, uint32_t n, bool = false) {
  OtRecvStore s; s.shim_seed = base.shim_seed + 1; ShimShare(ctx, 1, "IDEAL:OT"); ShimFillRecv(&s, ch, n); return s; }
inline OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& ctx, const OtRecvStore& base, uint32_t n, bool = false) {
  OtSendStore s; s.shim_seed = base.shim_seed + 1; ShimGet(ctx, "IDEAL:OT"); ShimFillSend(&s, n); return s; }
}  // namespace yacl::crypto
