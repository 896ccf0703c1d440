// Stand-in for the ECSS-E-ST-40-07C header <Smp/SimulatorStateKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SIMULATORSTATEKIND_H_
#define VERIF_SMP_SIMULATORSTATEKIND_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp {
enum class SimulatorStateKind : ::Smp::Int32 {
  SSK_Building = 0,
  SSK_Connecting = 1,
  SSK_Initialising = 2,
  SSK_Standby = 3,
  SSK_Executing = 4,
  SSK_Storing = 5,
  SSK_Restoring = 6,
  SSK_Reconnecting = 7,
  SSK_Exiting = 8,
  SSK_Aborting = 9
};
std::ostream &operator<<(std::ostream &os, const SimulatorStateKind &kind);
} // namespace Smp

#endif
