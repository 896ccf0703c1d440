// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/DuplicateLiteral.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_DUPLICATELITERAL_H_
#define VERIF_SMP_PUBLICATION_DUPLICATELITERAL_H_

#include <Smp/Exception.h>

namespace Smp::Publication {
class DuplicateLiteral : public virtual ::Smp::Exception {
public:
  ~DuplicateLiteral() noexcept override = default;
  virtual String8 GetLiteralName() const noexcept = 0;
  virtual Int32 GetLiteralValue() const noexcept = 0;
};
} // namespace Smp::Publication

#endif
