// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidReturnValue.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDRETURNVALUE_H_
#define VERIF_SMP_INVALIDRETURNVALUE_H_

#include <Smp/AnySimple.h>
#include <Smp/Exception.h>

namespace Smp {
class InvalidReturnValue : public virtual ::Smp::Exception {
public:
  ~InvalidReturnValue() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual AnySimple GetValue() const noexcept = 0;
};
} // namespace Smp

#endif
