#pragma once
// The multi-buffer X25519 of IPP Crypto, lane by lane through OpenSSL.
#include <openssl/evp.h>
#include <cstdint>
using int8u = uint8_t;
using mbx_status = uint32_t;
inline mbx_status mbx_x25519_mb8(int8u* const key[8], const int8u* const sk[8], const int8u* const pk[8]) {
  mbx_status st = 0;
  for (int i = 0; i < 8; ++i) {
    EVP_PKEY* s = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, nullptr, sk[i], 32);
    EVP_PKEY* p = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, pk[i], 32);
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(s, nullptr);
    size_t n = 32; int8u t[32];
    if (!(EVP_PKEY_derive_init(c) > 0 && EVP_PKEY_derive_set_peer(c, p) > 0 && EVP_PKEY_derive(c, t, &n) > 0)) st |= 1u << (4 * i);
    else for (int k = 0; k < 32; ++k) key[i][k] = t[k];
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(s); EVP_PKEY_free(p);
  }
  return st;
}
