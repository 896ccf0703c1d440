// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidArrayIndex.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDARRAYINDEX_H_
#define VERIF_SMP_INVALIDARRAYINDEX_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidArrayIndex : public virtual ::Smp::Exception {
public:
  ~InvalidArrayIndex() noexcept override = default;
  virtual Int64 GetInvalidIndex() const noexcept = 0;
  virtual Int64 GetArraySize() const noexcept = 0;
};
} // namespace Smp

#endif
