#pragma once
#include <cstring>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer((const void*)&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) { uint128_t v; YACL_ENFORCE(b.size() == sizeof(v)); memcpy(&v, b.data(), sizeof(v)); return v; }
inline Buffer SerializeInt128(int128_t v) { return Buffer((const void*)&v, sizeof(v)); }
inline int128_t DeserializeInt128(ByteContainerView b) { int128_t v; YACL_ENFORCE(b.size() == sizeof(v)); memcpy(&v, b.data(), sizeof(v)); return v; }
}  // namespace yacl
