// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidEventName.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_INVALIDEVENTNAME_H_
#define VERIF_SMP_SERVICES_INVALIDEVENTNAME_H_

#include <Smp/Exception.h>

namespace Smp::Services {
class InvalidEventName : public virtual ::Smp::Exception {
public:
  ~InvalidEventName() noexcept override = default;
};
} // namespace Smp::Services

#endif
