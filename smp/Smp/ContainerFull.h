// Stand-in for the ECSS-E-ST-40-07C header <Smp/ContainerFull.h>, written for the checks in /verif.
#ifndef VERIF_SMP_CONTAINERFULL_H_
#define VERIF_SMP_CONTAINERFULL_H_

#include <Smp/Exception.h>

namespace Smp {
class ContainerFull : public virtual ::Smp::Exception {
public:
  ~ContainerFull() noexcept override = default;
  virtual String8 GetContainerName() const noexcept = 0;
  virtual Int64 GetContainerSize() const noexcept = 0;
};
} // namespace Smp

#endif
