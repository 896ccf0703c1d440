// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidCycleTime.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_INVALIDCYCLETIME_H_
#define VERIF_SMP_SERVICES_INVALIDCYCLETIME_H_

#include <Smp/Exception.h>

namespace Smp::Services {
class InvalidCycleTime : public virtual ::Smp::Exception {
public:
  ~InvalidCycleTime() noexcept override = default;
};
} // namespace Smp::Services

#endif
