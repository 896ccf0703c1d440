// Stand-in for the ECSS-E-ST-40-07C header <Smp/AccessKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ACCESSKIND_H_
#define VERIF_SMP_ACCESSKIND_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp {
enum class AccessKind : ::Smp::Int32 {
  AK_ReadWrite = 0,
  AK_ReadOnly = 1,
  AK_WriteOnly = 2
};
std::ostream &operator<<(std::ostream &os, const AccessKind &kind);
} // namespace Smp

#endif
