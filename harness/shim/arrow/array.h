#pragma once
#include "arrow/api.h"
