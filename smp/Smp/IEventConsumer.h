// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventConsumer.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IEVENTCONSUMER_H_
#define VERIF_SMP_IEVENTCONSUMER_H_

#include <Smp/IComponent.h>
#include <Smp/IEventSink.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IEventConsumer : public virtual ::Smp::IComponent {
public:
  ~IEventConsumer() noexcept override = default;
  virtual const EventSinkCollection *GetEventSinks() const = 0;
  virtual IEventSink *GetEventSink(String8 name) const = 0;
};
} // namespace Smp

#endif
