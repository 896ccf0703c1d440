// Stand-in for the ECSS-E-ST-40-07C header <Smp/VoidOperation.h>, written for the checks in /verif.
#ifndef VERIF_SMP_VOIDOPERATION_H_
#define VERIF_SMP_VOIDOPERATION_H_

#include <Smp/Exception.h>

namespace Smp {
class VoidOperation : public virtual ::Smp::Exception {
public:
  ~VoidOperation() noexcept override = default;
  virtual String8 GetOperationName() const noexcept = 0;
};
} // namespace Smp

#endif
