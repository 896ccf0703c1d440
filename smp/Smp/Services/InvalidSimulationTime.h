// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidSimulationTime.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_INVALIDSIMULATIONTIME_H_
#define VERIF_SMP_SERVICES_INVALIDSIMULATIONTIME_H_

#include <Smp/Exception.h>

namespace Smp::Services {
class InvalidSimulationTime : public virtual ::Smp::Exception {
public:
  ~InvalidSimulationTime() noexcept override = default;
  virtual Duration GetCurrentTime() const noexcept = 0;
  virtual Duration GetProvidedTime() const noexcept = 0;
  virtual Duration GetMaximumTime() const noexcept = 0;
};
} // namespace Smp::Services

#endif
