// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/ILinkRegistry.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_ILINKREGISTRY_H_
#define VERIF_SMP_SERVICES_ILINKREGISTRY_H_

#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp::Services {
class ILinkRegistry : public virtual ::Smp::IService {
public:
  ~ILinkRegistry() noexcept override = default;
  virtual void AddLink(IComponent *source, const IComponent *target) = 0;
  virtual UInt32 GetLinkCount(const IComponent *source, const IComponent *target) const = 0;
  virtual Bool RemoveLink(IComponent *source, const IComponent *target) = 0;
  virtual const ComponentCollection *GetLinkSources(const IComponent *target) const = 0;
  virtual Bool CanRemove(const IComponent *target) = 0;
  virtual void RemoveLinks(const IComponent *target) = 0;
};
} // namespace Smp::Services

#endif
