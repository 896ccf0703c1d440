// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidComponentState.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDCOMPONENTSTATE_H_
#define VERIF_SMP_INVALIDCOMPONENTSTATE_H_

#include <Smp/ComponentStateKind.h>
#include <Smp/Exception.h>

namespace Smp {
class InvalidComponentState : public virtual ::Smp::Exception {
public:
  ~InvalidComponentState() noexcept override = default;
  virtual ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ComponentStateKind GetExpectedState() const noexcept = 0;
};
} // namespace Smp

#endif
