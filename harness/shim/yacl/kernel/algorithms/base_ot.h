#pragma once
#include <memory>
#include "yacl/crypto/rand/rand.h"
#include "yacl/crypto/tools/prg.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/context.h"
namespace yacl::crypto {
inline void ShimFillSend(OtSendStore* s, size_t n) { Prg<uint128_t> p(s->shim_seed); s->b.resize(n); for (auto& x : s->b) { x[0] = p(); x[1] = p(); } }
template <class C> void ShimFillRecv(OtRecvStore* s, const C& ch, size_t n) { Prg<uint128_t> p(s->shim_seed); s->b.resize(n); s->c.resize(n); for (size_t i = 0; i < n; ++i) { uint128_t a = p(), b = p(); s->c[i] = ch[i] ? 1 : 0; s->b[i] = ch[i] ? b : a; } }
inline void ShimShare(const std::shared_ptr<link::Context>& ctx, uint128_t v, const char* tag) { ctx->SendAsync(ctx->NextRank(), ByteContainerView(&v, sizeof(v)), tag); }
inline uint128_t ShimGet(const std::shared_ptr<link::Context>& ctx, const char* tag) { auto b = ctx->Recv(ctx->NextRank(), tag); uint128_t v; YACL_ENFORCE(b.size() == (int64_t)sizeof(v)); memcpy(&v, b.data(), sizeof(v)); return v; }
inline OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& ctx, size_t n) { OtSendStore s; s.shim_seed = SecureRandU128(); ShimShare(ctx, s.shim_seed, "IDEAL:OT"); ShimFillSend(&s, n); return s; }
template <class C> OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const C& ch, size_t n) { OtRecvStore s; s.shim_seed = ShimGet(ctx, "IDEAL:OT"); ShimFillRecv(&s, ch, n); return s; }
}  // namespace yacl::crypto
