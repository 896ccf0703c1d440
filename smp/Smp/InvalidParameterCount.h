// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterCount.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDPARAMETERCOUNT_H_
#define VERIF_SMP_INVALIDPARAMETERCOUNT_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidParameterCount : public virtual ::Smp::Exception {
public:
  ~InvalidParameterCount() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual Int32 GetOperationParameters() const noexcept = 0;
  virtual Int32 GetRequestParameters() const noexcept = 0;
};
} // namespace Smp

#endif
