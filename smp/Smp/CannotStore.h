// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotStore.h>, written for the checks in /verif.
#ifndef VERIF_SMP_CANNOTSTORE_H_
#define VERIF_SMP_CANNOTSTORE_H_

#include <Smp/Exception.h>

namespace Smp {
class CannotStore : public virtual ::Smp::Exception {
public:
  ~CannotStore() noexcept override = default;
};
} // namespace Smp

#endif
