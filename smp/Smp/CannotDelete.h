// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotDelete.h>, written for the checks in /verif.
#ifndef VERIF_SMP_CANNOTDELETE_H_
#define VERIF_SMP_CANNOTDELETE_H_

#include <Smp/Exception.h>

namespace Smp {
class IComponent;
} // namespace Smp

namespace Smp {
class CannotDelete : public virtual ::Smp::Exception {
public:
  ~CannotDelete() noexcept override = default;
  virtual String8 GetContainerName() const noexcept = 0;
  virtual const IComponent* GetComponent() const noexcept = 0;
  virtual Int64 GetLowerLimit() const noexcept = 0;
};
} // namespace Smp

#endif
