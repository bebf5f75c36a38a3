#pragma once
#include <gmpxx.h>
#include <openssl/rand.h>
#include <ostream>
#include <string>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#ifndef VERIF_ENDIAN
#define VERIF_ENDIAN
namespace yacl { enum class Endian { native, little, big }; }
#endif
namespace yacl::math {
class MPInt {
 public:
  MPInt() = default;
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  MPInt(T v) { Set(v); }
  MPInt(int128_t v) { Set128(v < 0, v < 0 ? -(uint128_t)v : (uint128_t)v); }
  MPInt(uint128_t v) { Set128(false, v); }
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  MPInt(T v, size_t) { Set(v); }
  explicit MPInt(const std::string& s, int radix = 10) : v_(s, radix) {}
  explicit MPInt(mpz_class v) : v_(std::move(v)) {}
  template <typename T> void Set(T v) { if constexpr (sizeof(T) == 16) { *this = MPInt(v); } else if constexpr (std::is_signed_v<T>) v_ = mpz_class((long)v); else v_ = mpz_class((unsigned long)v); }
  template <typename T> T Get() const { T r = (T)0; mpz_class a = abs(v_); uint64_t lo = mpz_class(a & mpz_class("ffffffffffffffff", 16)).get_ui(); uint64_t hi = mpz_class((a >> 64) & mpz_class("ffffffffffffffff", 16)).get_ui(); unsigned __int128 u = ((unsigned __int128)hi << 64) | lo; r = (T)u; return v_ < 0 ? (T)-r : r; }
  void FromMagBytes(ByteContainerView b, Endian e = Endian::native) { mpz_import(v_.get_mpz_t(), b.size(), e == Endian::big ? 1 : -1, 1, 0, 0, b.data()); }
  Buffer ToMagBytes(Endian e = Endian::native) const { size_t n = (mpz_sizeinbase(v_.get_mpz_t(), 2) + 7) / 8; if (v_ == 0) n = 0; Buffer r((int64_t)n); size_t c; if (n) mpz_export(r.data(), &c, e == Endian::big ? 1 : -1, 1, 0, 0, v_.get_mpz_t()); return r; }
  size_t ToMagBytes(unsigned char* buf, size_t len, Endian e = Endian::native) const { auto b = ToMagBytes(e); YACL_ENFORCE((size_t)b.size() <= len); memset(buf, 0, len); if (e == Endian::big) memcpy(buf + len - b.size(), b.data(), b.size()); else memcpy(buf, b.data(), b.size()); return b.size(); }
  Buffer Serialize() const { std::string s = v_.get_str(16); return Buffer((const void*)s.data(), s.size()); }
  size_t Serialize(uint8_t* p, size_t n) const { std::string s = v_.get_str(16); if (p) memcpy(p, s.data(), std::min(n, s.size())); return s.size(); }
  void Deserialize(ByteContainerView b) { v_ = mpz_class(std::string((const char*)b.data(), b.size()), 16); }
  bool IsZero() const { return v_ == 0; }
  bool IsOne() const { return v_ == 1; }
  bool IsNegative() const { return v_ < 0; }
  bool IsPositive() const { return v_ > 0; }
  bool IsOdd() const { return mpz_odd_p(v_.get_mpz_t()); }
  bool IsEven() const { return !IsOdd(); }
  size_t BitCount() const { return v_ == 0 ? 0 : mpz_sizeinbase(v_.get_mpz_t(), 2); }
  uint8_t GetBit(int i) const { return mpz_tstbit(v_.get_mpz_t(), i); }
  void NegateInplace() { v_ = -v_; }
  void Negate(MPInt* r) const { r->v_ = -v_; }
  MPInt Abs() const { return MPInt(mpz_class(abs(v_))); }
  static mpz_class M(const mpz_class& a, const mpz_class& m) { mpz_class r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
  MPInt Mod(const MPInt& m) const { return MPInt(M(v_, m.v_)); }
  MPInt MulMod(const MPInt& b, const MPInt& m) const { return MPInt(M(v_ * b.v_, m.v_)); }
  MPInt AddMod(const MPInt& b, const MPInt& m) const { return MPInt(M(v_ + b.v_, m.v_)); }
  MPInt SubMod(const MPInt& b, const MPInt& m) const { return MPInt(M(v_ - b.v_, m.v_)); }
  MPInt PowMod(const MPInt& e, const MPInt& m) const { mpz_class r; mpz_powm(r.get_mpz_t(), v_.get_mpz_t(), e.v_.get_mpz_t(), m.v_.get_mpz_t()); return MPInt(r); }
  MPInt InvertMod(const MPInt& m) const { mpz_class r; YACL_ENFORCE(mpz_invert(r.get_mpz_t(), v_.get_mpz_t(), m.v_.get_mpz_t())); return MPInt(r); }
  static void Mod(const MPInt& a, const MPInt& m, MPInt* r) { *r = a.Mod(m); }
  static void MulMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* r) { *r = a.MulMod(b, m); }
  static void AddMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* r) { *r = a.AddMod(b, m); }
  static void SubMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* r) { *r = a.SubMod(b, m); }
  static void PowMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* r) { *r = a.PowMod(b, m); }
  static void InvertMod(const MPInt& a, const MPInt& m, MPInt* r) { *r = a.InvertMod(m); }
  static void Add(const MPInt& a, const MPInt& b, MPInt* r) { r->v_ = a.v_ + b.v_; }
  static void Sub(const MPInt& a, const MPInt& b, MPInt* r) { r->v_ = a.v_ - b.v_; }
  static void Mul(const MPInt& a, const MPInt& b, MPInt* r) { r->v_ = a.v_ * b.v_; }
  static void Div(const MPInt& a, const MPInt& b, MPInt* q, MPInt* r) { mpz_class x, y; mpz_tdiv_qr(x.get_mpz_t(), y.get_mpz_t(), a.v_.get_mpz_t(), b.v_.get_mpz_t()); if (q) q->v_ = x; if (r) r->v_ = y; }
  static void RandomLtN(const MPInt& n, MPInt* r) { std::string b(n.BitCount() / 8 + 16, 0); RAND_bytes((unsigned char*)b.data(), b.size()); MPInt x; x.FromMagBytes(b, Endian::big); r->v_ = M(x.v_, n.v_); }
  static MPInt RandomLtN(const MPInt& n) { MPInt r; RandomLtN(n, &r); return r; }
#define OP(o) MPInt operator o(const MPInt& b) const { return MPInt(mpz_class(v_ o b.v_)); } MPInt& operator o##=(const MPInt& b) { v_ o##= b.v_; return *this; }
  OP(+) OP(-) OP(*) OP(/) OP(%)
#undef OP
#define OP(o) bool operator o(const MPInt& b) const { return v_ o b.v_; }
  OP(==) OP(!=) OP(<) OP(>) OP(<=) OP(>=)
#undef OP
  MPInt operator-() const { return MPInt(mpz_class(-v_)); }
  MPInt operator<<(size_t k) const { return MPInt(mpz_class(v_ << k)); }
  MPInt operator>>(size_t k) const { return MPInt(mpz_class(v_ >> k)); }
  std::string ToString() const { return v_.get_str(); }
  std::string ToHexString() const { return v_.get_str(16); }
  const mpz_class& raw() const { return v_; }
 private:
  void Set128(bool neg, uint128_t u) { v_ = mpz_class((unsigned long)(uint64_t)(u >> 64)); v_ <<= 64; v_ += mpz_class((unsigned long)(uint64_t)u); if (neg) v_ = -v_; }
  mpz_class v_ = 0;
};
inline std::ostream& operator<<(std::ostream& os, const MPInt& m) { return os << m.ToString(); }
inline MPInt operator""_mp(const char* s) { return MPInt(std::string(s)); }
inline MPInt operator""_mp(const char* s, size_t n) { return MPInt(std::string(s, n)); }
}
namespace fmt { template <> struct formatter<yacl::math::MPInt> : ostream_formatter {}; }
