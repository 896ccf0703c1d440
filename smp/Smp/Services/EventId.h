// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/EventId.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_EVENTID_H_
#define VERIF_SMP_SERVICES_EVENTID_H_

#include <Smp/PrimitiveTypes.h>

namespace Smp::Services {
using EventId = ::Smp::Int64;
} // namespace Smp::Services

#endif
