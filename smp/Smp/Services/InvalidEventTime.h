// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidEventTime.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_INVALIDEVENTTIME_H_
#define VERIF_SMP_SERVICES_INVALIDEVENTTIME_H_

#include <Smp/Exception.h>

namespace Smp::Services {
class InvalidEventTime : public virtual ::Smp::Exception {
public:
  ~InvalidEventTime() noexcept override = default;
};
} // namespace Smp::Services

#endif
