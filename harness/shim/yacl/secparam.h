#pragma once
#include "yacl/base/secparam.h"
