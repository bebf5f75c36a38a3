#pragma once
#include "apsi/item.h"
