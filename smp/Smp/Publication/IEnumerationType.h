// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IEnumerationType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_IENUMERATIONTYPE_H_
#define VERIF_SMP_PUBLICATION_IENUMERATIONTYPE_H_

#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>

namespace Smp::Publication {
class IEnumerationType : public virtual ::Smp::Publication::IType {
public:
  ~IEnumerationType() noexcept override = default;
  virtual void AddLiteral(String8 name, String8 description, Int32 value) = 0;
};
} // namespace Smp::Publication

#endif
