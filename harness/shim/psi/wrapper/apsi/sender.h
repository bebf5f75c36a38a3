#pragma once
#ifdef VERIF_DK
#include_next <psi/wrapper/apsi/sender.h>
#else
#include "psi/wrapper/apsi/receiver.h"
#endif
