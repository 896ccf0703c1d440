// Stand-in for the ECSS-E-ST-40-07C header <Smp/IContainer.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ICONTAINER_H_
#define VERIF_SMP_ICONTAINER_H_

#include <Smp/ICollection.h>
#include <Smp/IComponent.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IContainer : public virtual ::Smp::IObject {
public:
  ~IContainer() noexcept override = default;
  virtual const ComponentCollection *GetComponents() const = 0;
  virtual IComponent *GetComponent(String8 name) const = 0;
  virtual void AddComponent(IComponent *component) = 0;
  virtual void DeleteComponent(IComponent *component) = 0;
  virtual Int64 GetCount() const = 0;
  virtual Int64 GetUpper() const = 0;
  virtual Int64 GetLower() const = 0;
};
using ContainerCollection = ::Smp::ICollection<IContainer>;
} // namespace Smp

#endif
