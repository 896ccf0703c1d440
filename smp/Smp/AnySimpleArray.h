// Stand-in for the ECSS-E-ST-40-07C header <Smp/AnySimpleArray.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ANYSIMPLEARRAY_H_
#define VERIF_SMP_ANYSIMPLEARRAY_H_

#include <Smp/AnySimple.h>

namespace Smp {
using AnySimpleArray = AnySimple *;
} // namespace Smp

#endif
