// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidObjectType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDOBJECTTYPE_H_
#define VERIF_SMP_INVALIDOBJECTTYPE_H_

#include <Smp/Exception.h>

namespace Smp {
class IObject;
} // namespace Smp

namespace Smp {
class InvalidObjectType : public virtual ::Smp::Exception {
public:
  ~InvalidObjectType() noexcept override = default;
  virtual IObject* GetInvalidObject() const noexcept = 0;
};
} // namespace Smp

#endif
