#pragma once
#include "seal/all.h"
