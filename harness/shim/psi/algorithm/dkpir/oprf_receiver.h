#pragma once
#ifdef VERIF_DK
#include_next <psi/algorithm/dkpir/oprf_receiver.h>
#else
namespace psi::dkpir { class ShuffledOPRFReceiver; }
#endif
