// Stand-in for the ECSS-E-ST-40-07C header <Smp/ComponentStateKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_COMPONENTSTATEKIND_H_
#define VERIF_SMP_COMPONENTSTATEKIND_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp {
enum class ComponentStateKind : ::Smp::Int32 {
  CSK_Created = 0,
  CSK_Publishing = 1,
  CSK_Configured = 2,
  CSK_Connected = 3,
  CSK_Disconnected = 4
};
std::ostream &operator<<(std::ostream &os, const ComponentStateKind &kind);
} // namespace Smp

#endif
