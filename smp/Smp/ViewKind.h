// Stand-in for the ECSS-E-ST-40-07C header <Smp/ViewKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_VIEWKIND_H_
#define VERIF_SMP_VIEWKIND_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp {
enum class ViewKind : ::Smp::Int32 {
  VK_None = 0,
  VK_Debug = 1,
  VK_Expert = 2,
  VK_All = 3
};
std::ostream &operator<<(std::ostream &os, const ViewKind &kind);
} // namespace Smp

#endif
