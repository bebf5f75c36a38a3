#pragma once
#include "yacl/crypto/hash/hash_interface.h"
