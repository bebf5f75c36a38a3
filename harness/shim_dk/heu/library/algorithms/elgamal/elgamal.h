#pragma once
// Stand-in for HEU's EC-ElGamal (the message in the exponent), over the curves of the stand-in for yacl.
#include <memory>
#include <string>
#include "yacl/crypto/ecc/ecc_spi.h"
#include "yacl/math/mpint/mp_int.h"
namespace heu::lib::algorithms::elgamal {
using Plaintext = yacl::math::MPInt;
using Group = std::shared_ptr<yacl::crypto::EcGroup>;
inline Group& Enabled_() { static Group g; return g; }
class PublicKey {
 public:
  PublicKey() = default;
  PublicKey(Group c, yacl::crypto::EcPoint h) : c_(std::move(c)), h_(std::move(h)) {}
  const Group& GetCurve() const { if (!c_) throw std::runtime_error("no curve"); return c_; }
  const yacl::crypto::EcPoint& GetH() const { return h_; }
 private:
  Group c_; yacl::crypto::EcPoint h_;
};
class SecretKey {
 public:
  SecretKey() = default;
  SecretKey(yacl::math::MPInt x, Group c) : x_(std::move(x)), c_(std::move(c)) {}
  const yacl::math::MPInt& GetX() const { return x_; }
 private:
  yacl::math::MPInt x_; Group c_;
};
class Ciphertext {
 public:
  Ciphertext() = default;
  Ciphertext(Group e, yacl::crypto::EcPoint a, yacl::crypto::EcPoint b) : ec(std::move(e)), c1(std::move(a)), c2(std::move(b)) {}
  static void EnableEcGroup(const Group& g) { Enabled_() = g; }
  yacl::Buffer Serialize(bool with_meta = false) const {
    if (!ec) throw std::runtime_error("a ciphertext without a curve");
    std::string a(std::string_view(ec->SerializePoint(c1))), b(std::string_view(ec->SerializePoint(c2))), n = with_meta ? ec->GetCurveName() : "";
    std::string s; for (auto* x : {&n, &a, &b}) { s.push_back((char)x->size()); s += *x; }
    return yacl::Buffer((const void*)s.data(), s.size());
  }
  void Deserialize(yacl::ByteContainerView v) {
    std::string s((const char*)v.data(), v.size()), part[3]; size_t at = 0;
    for (auto& p : part) { if (at >= s.size()) throw std::runtime_error("bad ciphertext"); size_t n = (unsigned char)s[at]; p = s.substr(at + 1, n); at += 1 + n; }
    if (!part[0].empty()) ec = yacl::crypto::EcGroupFactory::Instance().Create(part[0]);
    else ec = Enabled_();
    if (!ec) throw std::runtime_error("no curve enabled");
    c1 = ec->DeserializePoint(part[1]); c2 = ec->DeserializePoint(part[2]);
  }
  Group ec;
  yacl::crypto::EcPoint c1, c2;
};
class Evaluator {
 public:
  explicit Evaluator(const PublicKey& pk) : pk_(pk) { Ciphertext::EnableEcGroup(pk_.GetCurve()); }
  void AddInplace(Ciphertext* a, const Ciphertext& b) const { a->c1 = pk_.GetCurve()->Add(a->c1, b.c1); a->c2 = pk_.GetCurve()->Add(a->c2, b.c2); }
 private:
  PublicKey pk_;
};
struct KeyGenerator {
  static void Generate(const std::string& curve, SecretKey* sk, PublicKey* pk) {
    Group g = yacl::crypto::EcGroupFactory::Instance().Create(curve);
    yacl::math::MPInt x; yacl::math::MPInt::RandomLtN(g->GetOrder(), &x);
    *sk = SecretKey(x, g); *pk = PublicKey(g, g->MulBase(x));
  }
};
}  // namespace heu::lib::algorithms::elgamal
