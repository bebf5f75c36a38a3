#pragma once
#include "yacl/crypto/ecc/ecc_spi.h"
