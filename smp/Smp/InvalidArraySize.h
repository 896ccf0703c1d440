// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidArraySize.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDARRAYSIZE_H_
#define VERIF_SMP_INVALIDARRAYSIZE_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidArraySize : public virtual ::Smp::Exception {
public:
  ~InvalidArraySize() noexcept override = default;
  virtual Int64 GetArraySize() const noexcept = 0;
  virtual Int64 GetInvalidSize() const noexcept = 0;
};
} // namespace Smp

#endif
