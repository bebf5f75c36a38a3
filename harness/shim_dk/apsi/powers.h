#pragma once
#include "apsi/all.h"
