#pragma once
#ifdef VERIF_DK
#include_next <psi/algorithm/dkpir/query.h>
#else
namespace psi::dkpir { class DkPirQuery; }
#endif
