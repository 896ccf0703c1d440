// Stand-in for the ECSS-E-ST-40-07C header <Smp/NotReferenced.h>, written for the checks in /verif.
#ifndef VERIF_SMP_NOTREFERENCED_H_
#define VERIF_SMP_NOTREFERENCED_H_

#include <Smp/Exception.h>

namespace Smp {
class IComponent;
} // namespace Smp

namespace Smp {
class NotReferenced : public virtual ::Smp::Exception {
public:
  ~NotReferenced() noexcept override = default;
  virtual String8 GetReferenceName() const noexcept = 0;
  virtual const IComponent* GetComponent() const noexcept = 0;
};
} // namespace Smp

#endif
