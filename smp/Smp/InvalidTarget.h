// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidTarget.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDTARGET_H_
#define VERIF_SMP_INVALIDTARGET_H_

#include <Smp/Exception.h>

namespace Smp {
class IDataflowField;
class IField;
} // namespace Smp

namespace Smp {
class InvalidTarget : public virtual ::Smp::Exception {
public:
  ~InvalidTarget() noexcept override = default;
  virtual const IDataflowField* GetSource() const noexcept = 0;
  virtual const IField* GetTarget() const noexcept = 0;
};
} // namespace Smp

#endif
