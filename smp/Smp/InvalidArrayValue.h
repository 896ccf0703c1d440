// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidArrayValue.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDARRAYVALUE_H_
#define VERIF_SMP_INVALIDARRAYVALUE_H_

#include <Smp/AnySimple.h>
#include <Smp/Exception.h>

namespace Smp {
class InvalidArrayValue : public virtual ::Smp::Exception {
public:
  ~InvalidArrayValue() noexcept override = default;
  virtual Int64 GetInvalidValueIndex() const noexcept = 0;
  virtual AnySimple GetInvalidValue() const noexcept = 0;
};
} // namespace Smp

#endif
