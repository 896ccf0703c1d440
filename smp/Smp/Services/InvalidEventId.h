// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/InvalidEventId.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_INVALIDEVENTID_H_
#define VERIF_SMP_SERVICES_INVALIDEVENTID_H_

#include <Smp/Exception.h>
#include <Smp/Services/EventId.h>

namespace Smp::Services {
class InvalidEventId : public virtual ::Smp::Exception {
public:
  ~InvalidEventId() noexcept override = default;
  virtual EventId GetInvalidEventId() const noexcept = 0;
};
} // namespace Smp::Services

#endif
