#pragma once
#ifdef VERIF_DK
#include_next <psi/wrapper/apsi/utils/common.h>
#else
#include "psi/wrapper/apsi/receiver.h"
#endif
