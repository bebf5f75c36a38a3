#pragma once
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <openssl/crypto.h>
#include <openssl/bn.h>
#include <mutex>
#include "yacl/crypto/ecc/ec_point.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/utils/spi/spi_factory.h"
namespace yacl::crypto {
enum class HashToCurveStrategy { Autonomous, SHA2_SSWU_, HashAsPointX_SHA2, HashAsPointX_SHA3, HashAsPointX_SM, HashAsPointX_BLAKE3, TryAndRehash_SHA2, TryAndRehash_SHA3, TryAndRehash_SM, TryAndRehash_BLAKE3, TryAndIncrement_SHA2 };
enum class PointOctetFormat { Autonomous, X962Compressed, X962Uncompressed, X962Hybrid };
class EcGroup {
 public:
  virtual ~EcGroup() = default;
  virtual std::string GetCurveName() const = 0;
  virtual std::string GetLibraryName() const = 0;
  virtual math::MPInt GetOrder() const = 0;
  virtual EcPoint MulBase(const math::MPInt& k) const = 0;
  virtual EcPoint Mul(const EcPoint& p, const math::MPInt& k) const = 0;
  virtual EcPoint Add(const EcPoint& a, const EcPoint& b) const { YACL_THROW("not supported"); }
  virtual EcPoint Sub(const EcPoint& a, const EcPoint& b) const { YACL_THROW("not supported"); }
  virtual EcPoint Negate(const EcPoint& a) const { YACL_THROW("not supported"); }
  virtual void AddInplace(EcPoint* a, const EcPoint& b) const { *a = Add(*a, b); }
  virtual void MulInplace(EcPoint* a, const math::MPInt& k) const { *a = Mul(*a, k); }
  virtual EcPoint MulDoubleBase(const math::MPInt& a, const math::MPInt& b, const EcPoint& p) const { return Add(MulBase(a), Mul(p, b)); }
  virtual EcPoint GetGenerator() const { return MulBase(math::MPInt(1)); }
  virtual bool PointEqual(const EcPoint& a, const EcPoint& b) const { return SerializePoint(a) == SerializePoint(b); }
  virtual EcPoint HashToCurve(HashToCurveStrategy s, std::string_view in) const = 0;
  EcPoint HashToCurve(std::string_view in) const { return HashToCurve(HashToCurveStrategy::Autonomous, in); }
  virtual uint64_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const = 0;
  virtual Buffer SerializePoint(const EcPoint& p, PointOctetFormat = PointOctetFormat::Autonomous) const = 0;
  virtual EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat = PointOctetFormat::Autonomous) const = 0;
};
// x-only Montgomery ladder over Curve25519 (as libsodium's crypto_scalarmult), points are 32 bytes
class ShimX25519 : public EcGroup {
 public:
  ShimX25519(std::string n, std::string l) : n_(std::move(n)), l_(std::move(l)) {}
  std::string GetCurveName() const override { return n_; }
  std::string GetLibraryName() const override { return l_; }
  math::MPInt GetOrder() const override { return math::MPInt("7237005577332262213973186563042994240857116359379907606001950938285454250989"); }
  EcPoint MulBase(const math::MPInt& k) const override { Array32 g{}; g[0] = 9; return Mul(g, k); }
  EcPoint Mul(const EcPoint& p, const math::MPInt& k) const override {
    Array32 sk{}; auto kb = k.ToMagBytes(Endian::little); memcpy(sk.data(), kb.data(), std::min<size_t>(32, kb.size()));
    const auto& x = std::get<Array32>(p);
    EVP_PKEY* a = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk.data(), 32);
    EVP_PKEY* b = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, x.data(), 32);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(a, nullptr);
    Array32 r{}; size_t n = 32;
    bool ok = EVP_PKEY_derive_init(c) == 1 && EVP_PKEY_derive_set_peer(c, b) == 1 && EVP_PKEY_derive(c, r.data(), &n) == 1;
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(a); EVP_PKEY_free(b);
    YACL_ENFORCE(ok, "crypto_scalarmult failed");
    return r;
  }
  EcPoint HashToCurve(HashToCurveStrategy s, std::string_view in) const override { auto h = Sha256(s == HashToCurveStrategy::Autonomous ? std::string("fourq|") + std::string(in) : std::string(in)); return Array32(h); }
  uint64_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const override { return 32; }
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat = PointOctetFormat::Autonomous) const override { auto& x = std::get<Array32>(p); return Buffer((const void*)x.data(), 32); }
  EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat = PointOctetFormat::Autonomous) const override { YACL_ENFORCE(b.size() == 32, "bad point size {}", b.size()); Array32 x; memcpy(x.data(), b.data(), 32); return x; }
 private:
  std::string n_, l_;
};
class ShimOpensslGroup : public EcGroup {
 public:
  ShimOpensslGroup(std::string n, int nid) : n_(std::move(n)), g_(EC_GROUP_new_by_curve_name(nid)) { YACL_ENFORCE(g_ != nullptr); }
  ~ShimOpensslGroup() override { EC_GROUP_free(g_); }
  std::string GetCurveName() const override { return n_; }
  std::string GetLibraryName() const override { return "openssl"; }
  math::MPInt GetOrder() const override { char* s = BN_bn2dec(EC_GROUP_get0_order(g_)); math::MPInt m{std::string(s)}; OPENSSL_free(s); return m; }
  static EC_POINT* P(const EcPoint& p) { return (EC_POINT*)std::get<AnyPtr>(p).get(); }
  EcPoint New() const { return AnyPtr(EC_POINT_new(g_), [](void* p) { EC_POINT_free((EC_POINT*)p); }); }
  BIGNUM* K(const math::MPInt& k) const { BIGNUM* b = nullptr; BN_dec2bn(&b, k.Mod(GetOrder()).ToString().c_str()); return b; }
  EcPoint MulBase(const math::MPInt& k) const override { auto r = New(); auto* b = K(k); EC_POINT_mul(g_, P(r), b, nullptr, nullptr, nullptr); BN_free(b); return r; }
  EcPoint Mul(const EcPoint& p, const math::MPInt& k) const override { auto r = New(); auto* b = K(k); EC_POINT_mul(g_, P(r), nullptr, P(p), b, nullptr); BN_free(b); return r; }
  EcPoint Add(const EcPoint& a, const EcPoint& b) const override { auto r = New(); EC_POINT_add(g_, P(r), P(a), P(b), nullptr); return r; }
  EcPoint Negate(const EcPoint& a) const override { EcPoint r = AnyPtr(EC_POINT_dup(P(a), g_), [](void* p) { EC_POINT_free((EC_POINT*)p); }); EC_POINT_invert(g_, P(r), nullptr); return r; }
  EcPoint Sub(const EcPoint& a, const EcPoint& b) const override { return Add(a, Negate(b)); }
  EcPoint HashToCurve(HashToCurveStrategy s, std::string_view in) const override {
    std::string m = std::to_string((int)s) + "|" + std::string(in);
    for (int i = 0; i < 1000; ++i) {
      auto h = Sha256(m);
      BIGNUM* x = BN_bin2bn(h.data(), 32, nullptr);
      auto r = New();
      int ok = EC_POINT_set_compressed_coordinates(g_, P(r), x, 0, nullptr);
      BN_free(x);
      if (ok == 1) return r;
      m.assign((const char*)h.data(), 32);
    }
    YACL_THROW("hash to curve failed");
  }
  uint64_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const override { return (EC_GROUP_get_degree(g_) + 7) / 8 + 1; }
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat = PointOctetFormat::Autonomous) const override { Buffer b((int64_t)GetSerializeLength()); size_t n = EC_POINT_point2oct(g_, P(p), POINT_CONVERSION_COMPRESSED, b.data<uint8_t>(), b.size(), nullptr); YACL_ENFORCE(n > 0); b.resize(n); return b; }
  EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat = PointOctetFormat::Autonomous) const override { auto r = New(); YACL_ENFORCE(EC_POINT_oct2point(g_, P(r), b.data(), b.size(), nullptr) == 1, "bad point"); return r; }
 private:
  std::string n_; EC_GROUP* g_;
};
class EcGroupFactory {
 public:
  static EcGroupFactory& Instance() { static EcGroupFactory f; return f; }
  template <typename... A> std::unique_ptr<EcGroup> Create(const std::string& name, A&&...) {
    std::string n = name; for (auto& c : n) c = tolower(c);
#ifdef VERIF_DK  // (one with an addition)
    if (n == "fourq") return std::make_unique<ShimOpensslGroup>(name, NID_X9_62_prime256v1);
#endif
    if (n == "curve25519" || n == "fourq") return std::make_unique<ShimX25519>(name, n == "fourq" ? "FourQlib" : "libsodium");
    if (n == "sm2") return std::make_unique<ShimOpensslGroup>(name, NID_sm2);
    if (n == "secp256k1") return std::make_unique<ShimOpensslGroup>(name, NID_secp256k1);
    if (n == "prime256v1" || n == "secp256r1") return std::make_unique<ShimOpensslGroup>(name, NID_X9_62_prime256v1);
    YACL_THROW("unknown curve {}", name);
  }
};
}
