#pragma once
#include "yacl/utils/parallel.h"
