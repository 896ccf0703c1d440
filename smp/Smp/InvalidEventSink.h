// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidEventSink.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDEVENTSINK_H_
#define VERIF_SMP_INVALIDEVENTSINK_H_

#include <Smp/Exception.h>

namespace Smp {
class IEventSource;
class IEventSink;
} // namespace Smp

namespace Smp {
class InvalidEventSink : public virtual ::Smp::Exception {
public:
  ~InvalidEventSink() noexcept override = default;
  virtual const IEventSource* GetEventSource() const noexcept = 0;
  virtual const IEventSink* GetEventSink() const noexcept = 0;
};
} // namespace Smp

#endif
