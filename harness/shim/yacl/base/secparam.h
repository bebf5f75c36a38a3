#pragma once
#include <cstdint>
#define YACL_MODULE_SECPARAM_C_UINT(...)
#define YACL_MODULE_DECLARE(...)
namespace yacl::crypto { enum class SecParam { C, S, UNKNOWN }; }
