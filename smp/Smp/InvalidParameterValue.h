// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterValue.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDPARAMETERVALUE_H_
#define VERIF_SMP_INVALIDPARAMETERVALUE_H_

#include <Smp/AnySimple.h>
#include <Smp/Exception.h>

namespace Smp {
class InvalidParameterValue : public virtual ::Smp::Exception {
public:
  ~InvalidParameterValue() noexcept override = default;
  virtual String8 GetParameterName() const noexcept = 0;
  virtual AnySimple GetValue() const noexcept = 0;
};
} // namespace Smp

#endif
