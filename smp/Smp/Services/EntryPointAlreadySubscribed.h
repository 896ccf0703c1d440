// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/EntryPointAlreadySubscribed.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H_
#define VERIF_SMP_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H_

#include <Smp/Exception.h>

namespace Smp {
class IEntryPoint;
} // namespace Smp

namespace Smp::Services {
class EntryPointAlreadySubscribed : public virtual ::Smp::Exception {
public:
  ~EntryPointAlreadySubscribed() noexcept override = default;
  virtual const IEntryPoint* GetEntryPoint() const noexcept = 0;
  virtual String8 GetEventName() const noexcept = 0;
};
} // namespace Smp::Services

#endif
