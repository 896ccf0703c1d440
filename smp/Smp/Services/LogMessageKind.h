// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/LogMessageKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_LOGMESSAGEKIND_H_
#define VERIF_SMP_SERVICES_LOGMESSAGEKIND_H_

#include <Smp/PrimitiveTypes.h>

namespace Smp::Services {
using LogMessageKind = ::Smp::Int32;
} // namespace Smp::Services

#endif
