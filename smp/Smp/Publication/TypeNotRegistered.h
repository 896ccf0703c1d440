// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/TypeNotRegistered.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_TYPENOTREGISTERED_H_
#define VERIF_SMP_PUBLICATION_TYPENOTREGISTERED_H_

#include <Smp/Exception.h>
#include <Smp/Uuid.h>

namespace Smp::Publication {
class TypeNotRegistered : public virtual ::Smp::Exception {
public:
  ~TypeNotRegistered() noexcept override = default;
  virtual Uuid GetUuid() const noexcept = 0;
};
} // namespace Smp::Publication

#endif
