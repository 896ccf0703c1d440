// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidParameterType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDPARAMETERTYPE_H_
#define VERIF_SMP_INVALIDPARAMETERTYPE_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidParameterType : public virtual ::Smp::Exception {
public:
  ~InvalidParameterType() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
  virtual String8 GetParameterName() const noexcept = 0;
  virtual PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
} // namespace Smp

#endif
