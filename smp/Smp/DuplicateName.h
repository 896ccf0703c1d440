// Stand-in for the ECSS-E-ST-40-07C header <Smp/DuplicateName.h>, written for the checks in /verif.
#ifndef VERIF_SMP_DUPLICATENAME_H_
#define VERIF_SMP_DUPLICATENAME_H_

#include <Smp/Exception.h>

namespace Smp {
class DuplicateName : public virtual ::Smp::Exception {
public:
  ~DuplicateName() noexcept override = default;
  virtual String8 GetDuplicateName() const noexcept = 0;
};
} // namespace Smp

#endif
