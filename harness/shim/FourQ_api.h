// Stand-in for FourQlib: a prime-order group with x-only 32-byte encodings (byte 15 stays zero), same call surface.
#pragma once
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <openssl/sha.h>
#include <cstdint>
#include <cstring>
typedef uint64_t digit_t;
typedef digit_t felm_t[2];
typedef felm_t f2elm_t[2];
typedef struct { f2elm_t x; f2elm_t y; } point_affine;
typedef point_affine point_t[1];
typedef enum { ECCRYPTO_SUCCESS = 0, ECCRYPTO_ERROR = 1, ECCRYPTO_ERROR_DURING_TEST, ECCRYPTO_ERROR_UNKNOWN, ECCRYPTO_ERROR_NOT_IMPLEMENTED, ECCRYPTO_ERROR_NO_MEMORY, ECCRYPTO_ERROR_INVALID_PARAMETER, ECCRYPTO_ERROR_SHARED_KEY, ECCRYPTO_ERROR_SIGNATURE_VERIFICATION } ECCRYPTO_STATUS;
namespace fqshim {
inline EC_GROUP* G() { static EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_secp224r1); return g; }
inline void Put(const BIGNUM* x, unsigned char* o) { unsigned char b[28]; BN_bn2binpad(x, b, 28); memset(o, 0, 32); memcpy(o, b, 15); memcpy(o + 16, b + 15, 13); }
inline BIGNUM* Get(const unsigned char* o) { unsigned char b[28]; memcpy(b, o, 15); memcpy(b + 15, o + 16, 13); return BN_bin2bn(b, 28, nullptr); }
inline BIGNUM* Scalar(const void* k) { BIGNUM* b = BN_lebin2bn((const unsigned char*)k, 32, nullptr); BN_CTX* c = BN_CTX_new(); BN_nnmod(b, b, EC_GROUP_get0_order(G()), c); BN_CTX_free(c); return b; }
inline EC_POINT* Lift(const unsigned char* o) { BIGNUM* x = Get(o); EC_POINT* p = EC_POINT_new(G()); int ok = EC_POINT_set_compressed_coordinates(G(), p, x, 0, nullptr); BN_free(x); if (ok != 1) { EC_POINT_free(p); return nullptr; } return p; }
}
inline bool ecc_mul(point_t P, digit_t* k, point_t Q, bool) {
  EC_POINT* p = fqshim::Lift((unsigned char*)P->x);
  if (!p) return false;
  BIGNUM* s = fqshim::Scalar(k); EC_POINT* r = EC_POINT_new(fqshim::G());
  EC_POINT_mul(fqshim::G(), r, nullptr, p, s, nullptr);
  BIGNUM* x = BN_new(); bool ok = EC_POINT_get_affine_coordinates(fqshim::G(), r, x, nullptr, nullptr) == 1;
  memset(Q, 0, sizeof(point_t));
  if (ok) fqshim::Put(x, (unsigned char*)Q->x);
  BN_free(x); BN_free(s); EC_POINT_free(p); EC_POINT_free(r);
  return ok;
}
inline void encode(point_t P, unsigned char* o) { memcpy(o, P->x, 32); }
inline ECCRYPTO_STATUS decode(const unsigned char* o, point_t P) { EC_POINT* p = fqshim::Lift(o); if (!p) return ECCRYPTO_ERROR; EC_POINT_free(p); memset(P, 0, sizeof(point_t)); memcpy(P->x, o, 32); return ECCRYPTO_SUCCESS; }
inline void mod1271(felm_t a) { if (a[1] >> 63) a[1] &= ~(1ull << 63); }
inline ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_t P) {
  unsigned char m[36]; memcpy(m, r, 32);
  for (uint32_t i = 0; i < 1000; ++i) {
    memcpy(m + 32, &i, 4); unsigned char h[32]; SHA256(m, 36, h); h[15] = 0; h[29] = h[30] = h[31] = 0;
    BIGNUM* x = fqshim::Get(h); unsigned char o[32]; fqshim::Put(x, o); BN_free(x);
    EC_POINT* p = fqshim::Lift(o);
    if (p) { EC_POINT_free(p); memset(P, 0, sizeof(point_t)); memcpy(P->x, o, 32); return ECCRYPTO_SUCCESS; }
  }
  return ECCRYPTO_ERROR;
}
inline void to_Montgomery(const digit_t* a, digit_t* b) { memmove(b, a, 32); }
inline void from_Montgomery(const digit_t* a, digit_t* b) { memmove(b, a, 32); }
inline void Montgomery_inversion_mod_order(const digit_t* a, digit_t* b) { BIGNUM* s = fqshim::Scalar(a); BN_CTX* c = BN_CTX_new(); BN_mod_inverse(s, s, EC_GROUP_get0_order(fqshim::G()), c); BN_bn2lebinpad(s, (unsigned char*)b, 32); BN_free(s); BN_CTX_free(c); }
