// Stand-in for the ECSS-E-ST-40-07C header <Smp/IAggregate.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IAGGREGATE_H_
#define VERIF_SMP_IAGGREGATE_H_

#include <Smp/IObject.h>
#include <Smp/IReference.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IAggregate : public virtual ::Smp::IObject {
public:
  ~IAggregate() noexcept override = default;
  virtual const ReferenceCollection *GetReferences() const = 0;
  virtual IReference *GetReference(String8 name) const = 0;
};
} // namespace Smp

#endif
