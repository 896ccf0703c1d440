// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventSource.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IEVENTSOURCE_H_
#define VERIF_SMP_IEVENTSOURCE_H_

#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IEventSink;
} // namespace Smp

namespace Smp {
class IEventSource : public virtual ::Smp::IObject {
public:
  ~IEventSource() noexcept override = default;
  virtual void Subscribe(IEventSink *eventSink) = 0;
  virtual void Unsubscribe(IEventSink *eventSink) = 0;
};
using EventSourceCollection = ::Smp::ICollection<IEventSource>;
} // namespace Smp

#endif
