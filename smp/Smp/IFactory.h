// Stand-in for the ECSS-E-ST-40-07C header <Smp/IFactory.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IFACTORY_H_
#define VERIF_SMP_IFACTORY_H_

#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Uuid.h>

namespace Smp {
class IComponent;
class IComposite;
} // namespace Smp

namespace Smp {
class IFactory : public virtual ::Smp::IObject {
public:
  ~IFactory() noexcept override = default;
  virtual Uuid GetUuid() const = 0;
  virtual IComponent *CreateInstance(String8 name, String8 description, IComposite *parent) = 0;
  virtual void DeleteInstance(IComponent *instance) = 0;
  virtual String8 GetTypeName() const = 0;
};
using FactoryCollection = ::Smp::ICollection<IFactory>;
} // namespace Smp

#endif
