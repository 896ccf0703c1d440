// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidObjectName.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDOBJECTNAME_H_
#define VERIF_SMP_INVALIDOBJECTNAME_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidObjectName : public virtual ::Smp::Exception {
public:
  ~InvalidObjectName() noexcept override = default;
  virtual String8 GetInvalidName() const noexcept = 0;
};
} // namespace Smp

#endif
