// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/TypeAlreadyRegistered.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_TYPEALREADYREGISTERED_H_
#define VERIF_SMP_PUBLICATION_TYPEALREADYREGISTERED_H_

#include <Smp/Exception.h>

namespace Smp::Publication {
class IType;
} // namespace Smp::Publication

namespace Smp::Publication {
class TypeAlreadyRegistered : public virtual ::Smp::Exception {
public:
  ~TypeAlreadyRegistered() noexcept override = default;
  virtual String8 GetTypeName() const noexcept = 0;
  virtual const IType* GetType() const noexcept = 0;
};
} // namespace Smp::Publication

#endif
