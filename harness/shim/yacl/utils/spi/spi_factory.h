#pragma once
#include <any>
#include <map>
#include <string>
#include "yacl/base/exception.h"
namespace yacl {
struct SpiArg { std::string k; std::any v; };
template <typename T> struct SpiArgKey {
  std::string k;
  SpiArg operator=(const T& v) const { return {k, v}; }
};
inline const SpiArgKey<std::string> ArgLib{"lib"};
}
