// Stand-in for the ECSS-E-ST-40-07C header <Smp/EventSinkAlreadySubscribed.h>, written for the checks in /verif.
#ifndef VERIF_SMP_EVENTSINKALREADYSUBSCRIBED_H_
#define VERIF_SMP_EVENTSINKALREADYSUBSCRIBED_H_

#include <Smp/Exception.h>

namespace Smp {
class IEventSource;
class IEventSink;
} // namespace Smp

namespace Smp {
class EventSinkAlreadySubscribed : public virtual ::Smp::Exception {
public:
  ~EventSinkAlreadySubscribed() noexcept override = default;
  virtual const IEventSource* GetEventSource() const noexcept = 0;
  virtual const IEventSink* GetEventSink() const noexcept = 0;
};
} // namespace Smp

#endif
