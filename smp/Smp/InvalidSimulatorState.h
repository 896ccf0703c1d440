// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidSimulatorState.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDSIMULATORSTATE_H_
#define VERIF_SMP_INVALIDSIMULATORSTATE_H_

#include <Smp/Exception.h>
#include <Smp/SimulatorStateKind.h>

namespace Smp {
class InvalidSimulatorState : public virtual ::Smp::Exception {
public:
  ~InvalidSimulatorState() noexcept override = default;
  virtual SimulatorStateKind GetInvalidState() const noexcept = 0;
};
} // namespace Smp

#endif
