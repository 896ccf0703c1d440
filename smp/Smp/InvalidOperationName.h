// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidOperationName.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDOPERATIONNAME_H_
#define VERIF_SMP_INVALIDOPERATIONNAME_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidOperationName : public virtual ::Smp::Exception {
public:
  ~InvalidOperationName() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
};
} // namespace Smp

#endif
