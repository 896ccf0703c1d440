// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidAnyType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDANYTYPE_H_
#define VERIF_SMP_INVALIDANYTYPE_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidAnyType : public virtual ::Smp::Exception {
public:
  ~InvalidAnyType() noexcept override = default;
  virtual PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
} // namespace Smp

#endif
