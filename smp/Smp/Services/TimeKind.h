// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/TimeKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_TIMEKIND_H_
#define VERIF_SMP_SERVICES_TIMEKIND_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp::Services {
enum class TimeKind : ::Smp::Int32 {
  TK_SimulationTime = 0,
  TK_MissionTime = 1,
  TK_EpochTime = 2,
  TK_ZuluTime = 3
};
std::ostream &operator<<(std::ostream &os, const TimeKind &kind);
} // namespace Smp::Services

#endif
