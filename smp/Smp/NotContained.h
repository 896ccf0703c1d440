// Stand-in for the ECSS-E-ST-40-07C header <Smp/NotContained.h>, written for the checks in /verif.
#ifndef VERIF_SMP_NOTCONTAINED_H_
#define VERIF_SMP_NOTCONTAINED_H_

#include <Smp/Exception.h>

namespace Smp {
class IComponent;
} // namespace Smp

namespace Smp {
class NotContained : public virtual ::Smp::Exception {
public:
  ~NotContained() noexcept override = default;
  virtual String8 GetContainerName() const noexcept = 0;
  virtual const IComponent* GetComponent() const noexcept = 0;
};
} // namespace Smp

#endif
