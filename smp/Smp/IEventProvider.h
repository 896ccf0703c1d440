// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventProvider.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IEVENTPROVIDER_H_
#define VERIF_SMP_IEVENTPROVIDER_H_

#include <Smp/IComponent.h>
#include <Smp/IEventSource.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IEventProvider : public virtual ::Smp::IComponent {
public:
  ~IEventProvider() noexcept override = default;
  virtual const EventSourceCollection *GetEventSources() const = 0;
  virtual IEventSource *GetEventSource(String8 name) const = 0;
};
} // namespace Smp

#endif
