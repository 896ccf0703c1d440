// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/ParameterDirectionKind.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H_
#define VERIF_SMP_PUBLICATION_PARAMETERDIRECTIONKIND_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp::Publication {
enum class ParameterDirectionKind : ::Smp::Int32 {
  PDK_In = 0,
  PDK_Out = 1,
  PDK_InOut = 2,
  PDK_Return = 3
};
std::ostream &operator<<(std::ostream &os, const ParameterDirectionKind &kind);
} // namespace Smp::Publication

#endif
