// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidFieldName.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDFIELDNAME_H_
#define VERIF_SMP_INVALIDFIELDNAME_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidFieldName : public virtual ::Smp::Exception {
public:
  ~InvalidFieldName() noexcept override = default;
  virtual String8 GetFieldName() const noexcept = 0;
};
} // namespace Smp

#endif
