#pragma once
#include <atomic>
#include <openssl/evp.h>
#include "yacl/kernel/algorithms/iknp_ote.h"
namespace yacl::crypto {
// Ideal batched OPRF: instance i evaluates H(seed, i, r_i, x), where the row r_i reaches the sender
// only through the correction messages, in order.
inline void ShimOprf(uint128_t seed, uint64_t i, uint128_t row, uint128_t x, uint8_t* out, size_t n) {
  struct { uint128_t s, r, x; uint64_t i, pad; } in{seed, row, x, i, 0};
  uint8_t h[64]; unsigned l = 0;
  EVP_Digest(&in, sizeof(in), h, &l, EVP_sha512(), nullptr);
  memcpy(out, h, std::min<size_t>(n, 64));
}
class KkrtOtExtSender {
 public:
  void Init(const std::shared_ptr<link::Context>&, const OtRecvStore& base, uint64_t n) { seed_ = base.shim_seed; rows_ = std::make_shared<std::vector<uint128_t>>(n, 0); next_ = 0; }
  void SetBatchSize(uint64_t b) { batch_ = b; }
  uint64_t GetBatchSize() const { return batch_; }
  void SetCorrection(const Buffer& buf, uint64_t n) { Set(buf, n); }
  void RecvCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { Set(ctx->Recv(ctx->NextRank(), "KKRT:Corrections"), n); }
  void Encode(uint64_t i, uint128_t x, void* out, uint64_t n) const { ShimOprf(seed_, i, rows_->at(i), x, (uint8_t*)out, n); }
  void Encode(uint64_t i, uint128_t x, absl::Span<uint8_t> out) const { Encode(i, x, out.data(), out.size()); }
  struct Oprf {
    uint128_t seed; std::shared_ptr<std::vector<uint128_t>> rows;
    uint64_t Eval(uint64_t i, uint128_t x) const { uint64_t v; ShimOprf(seed, i, rows->at(i), x, (uint8_t*)&v, 8); return v; }
    void Eval(uint64_t i, uint128_t x, uint8_t* out, uint64_t n) const { ShimOprf(seed, i, rows->at(i), x, out, n); }
  };
  std::unique_ptr<Oprf> GetOprf() const { return std::make_unique<Oprf>(Oprf{seed_, rows_}); }
 private:
  void Set(const Buffer& buf, uint64_t n) {
    YACL_ENFORCE((uint64_t)buf.size() == n * 16 && next_ + n <= rows_->size(), "bad correction size");
    memcpy(rows_->data() + next_, buf.data(), n * 16); next_ += n;
  }
  uint128_t seed_ = 0; std::shared_ptr<std::vector<uint128_t>> rows_; uint64_t next_ = 0, batch_ = 896;
};
class KkrtOtExtReceiver {
 public:
  void Init(const std::shared_ptr<link::Context>&, const OtSendStore& base, uint64_t n) { seed_ = base.shim_seed; rows_.assign(n, 0); done_.assign(n, 0); next_ = 0; }
  void SetBatchSize(uint64_t b) { batch_ = b; }
  uint64_t GetBatchSize() const { return batch_; }
  void Encode(uint64_t i, uint128_t x, absl::Span<uint8_t> out) { ZeroEncode(i); ShimOprf(seed_, i, rows_.at(i), x, out.data(), out.size()); }
  void ZeroEncode(uint64_t i) { do { rows_.at(i) = FastRandU128(); } while (!rows_[i]); done_[i] = 1; }
  Buffer ShiftCorrection(uint64_t n) {
    YACL_ENFORCE(next_ + n <= rows_.size(), "too many corrections");
    for (uint64_t k = next_; k < next_ + n; ++k) YACL_ENFORCE(done_[k], "instance {} was not encoded", k);
    Buffer b(rows_.data() + next_, n * 16); next_ += n; return b;
  }
  void SendCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { ctx->SendAsync(ctx->NextRank(), ShiftCorrection(n), "KKRT:Corrections"); }
 private:
  uint128_t seed_ = 0; std::vector<uint128_t> rows_; std::vector<uint8_t> done_; uint64_t next_ = 0, batch_ = 896;
};
}  // namespace yacl::crypto
