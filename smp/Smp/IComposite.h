// Stand-in for the ECSS-E-ST-40-07C header <Smp/IComposite.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ICOMPOSITE_H_
#define VERIF_SMP_ICOMPOSITE_H_

#include <Smp/IContainer.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IComposite : public virtual ::Smp::IObject {
public:
  ~IComposite() noexcept override = default;
  virtual const ContainerCollection *GetContainers() const = 0;
  virtual IContainer *GetContainer(String8 name) const = 0;
};
} // namespace Smp

#endif
