// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IArrayType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_IARRAYTYPE_H_
#define VERIF_SMP_PUBLICATION_IARRAYTYPE_H_

#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>

namespace Smp::Publication {
class IArrayType : public virtual ::Smp::Publication::IType {
public:
  ~IArrayType() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual const IType *GetItemType() const = 0;
};
} // namespace Smp::Publication

#endif
