// Stand-in for the ECSS-E-ST-40-07C header <Smp/ReferenceFull.h>, written for the checks in /verif.
#ifndef VERIF_SMP_REFERENCEFULL_H_
#define VERIF_SMP_REFERENCEFULL_H_

#include <Smp/Exception.h>

namespace Smp {
class ReferenceFull : public virtual ::Smp::Exception {
public:
  ~ReferenceFull() noexcept override = default;
  virtual String8 GetReferenceName() const noexcept = 0;
  virtual Int64 GetReferenceSize() const noexcept = 0;
};
} // namespace Smp

#endif
