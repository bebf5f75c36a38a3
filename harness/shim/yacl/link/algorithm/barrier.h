#pragma once
#include "yacl/link/context.h"
