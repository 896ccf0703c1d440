// Stand-in for the ECSS-E-ST-40-07C header <Smp/DuplicateUuid.h>, written for the checks in /verif.
#ifndef VERIF_SMP_DUPLICATEUUID_H_
#define VERIF_SMP_DUPLICATEUUID_H_

#include <Smp/Exception.h>

namespace Smp {
class DuplicateUuid : public virtual ::Smp::Exception {
public:
  ~DuplicateUuid() noexcept override = default;
  virtual String8 GetOldName() const noexcept = 0;
  virtual String8 GetNewName() const noexcept = 0;
};
} // namespace Smp

#endif
