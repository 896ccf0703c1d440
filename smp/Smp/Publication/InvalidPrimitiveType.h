// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/InvalidPrimitiveType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H_
#define VERIF_SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H_

#include <Smp/Exception.h>

namespace Smp::Publication {
class InvalidPrimitiveType : public virtual ::Smp::Exception {
public:
  ~InvalidPrimitiveType() noexcept override = default;
  virtual String8 GetTypeName() const noexcept = 0;
  virtual PrimitiveTypeKind GetType() const noexcept = 0;
};
} // namespace Smp::Publication

#endif
