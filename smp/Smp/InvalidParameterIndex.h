// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterIndex.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDPARAMETERINDEX_H_
#define VERIF_SMP_INVALIDPARAMETERINDEX_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidParameterIndex : public virtual ::Smp::Exception {
public:
  ~InvalidParameterIndex() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual Int32 GetParameterIndex() const noexcept = 0;
  virtual Int32 GetParameterCount() const noexcept = 0;
};
} // namespace Smp

#endif
