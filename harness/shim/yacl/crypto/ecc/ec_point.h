#pragma once
#include <array>
#include <memory>
#include <ostream>
#include <variant>
#include "yacl/math/mpint/mp_int.h"
namespace yacl::crypto {
using Array32 = std::array<unsigned char, 32>;
using Array128 = std::array<unsigned char, 128>;
using Array160 = std::array<unsigned char, 160>;
struct AffinePoint { math::MPInt x, y; bool operator==(const AffinePoint& o) const { return x == o.x && y == o.y; } };
using AnyPtr = std::shared_ptr<void>;
using EcPoint = std::variant<Array32, Array128, Array160, AffinePoint, AnyPtr>;
}
