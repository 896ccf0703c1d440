// Stand-in for the ECSS-E-ST-40-07C header <Smp/IComponent.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ICOMPONENT_H_
#define VERIF_SMP_ICOMPONENT_H_

#include <Smp/ComponentStateKind.h>
#include <Smp/ICollection.h>
#include <Smp/IField.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>

namespace Smp {
class IPublication;
class ISimulator;
} // namespace Smp
namespace Smp::Services {
class ILogger;
class ILinkRegistry;
} // namespace Smp::Services

namespace Smp {
class IComponent : public virtual ::Smp::IObject {
public:
  ~IComponent() noexcept override = default;
  virtual ComponentStateKind GetState() const = 0;
  virtual void Publish(IPublication *receiver) = 0;
  virtual void Configure(Services::ILogger *logger, Services::ILinkRegistry *linkRegistry = nullptr) = 0;
  virtual void Connect(ISimulator *simulator) = 0;
  virtual void Disconnect() = 0;
  virtual IField *GetField(String8 fullName) const = 0;
  virtual const FieldCollection *GetFields() const = 0;
  virtual const Uuid &GetUuid() const = 0;
};
using ComponentCollection = ::Smp::ICollection<IComponent>;
} // namespace Smp

#endif
