// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEventSink.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IEVENTSINK_H_
#define VERIF_SMP_IEVENTSINK_H_

#include <Smp/AnySimple.h>
#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IEventSink : public virtual ::Smp::IObject {
public:
  ~IEventSink() noexcept override = default;
  virtual PrimitiveTypeKind GetEventArgType() const = 0;
  virtual void Notify(IObject *sender, AnySimple value) = 0;
};
using EventSinkCollection = ::Smp::ICollection<IEventSink>;
} // namespace Smp

#endif
