// Stand-in for the ECSS-E-ST-40-07C header <Smp/CannotRestore.h>, written for the checks in /verif.
#ifndef VERIF_SMP_CANNOTRESTORE_H_
#define VERIF_SMP_CANNOTRESTORE_H_

#include <Smp/Exception.h>

namespace Smp {
class CannotRestore : public virtual ::Smp::Exception {
public:
  ~CannotRestore() noexcept override = default;
};
} // namespace Smp

#endif
