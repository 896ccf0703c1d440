// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidFieldValue.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDFIELDVALUE_H_
#define VERIF_SMP_INVALIDFIELDVALUE_H_

#include <Smp/AnySimple.h>
#include <Smp/Exception.h>

namespace Smp {
class InvalidFieldValue : public virtual ::Smp::Exception {
public:
  ~InvalidFieldValue() noexcept override = default;
  virtual AnySimple GetInvalidFieldValue() const noexcept = 0;
};
} // namespace Smp

#endif
