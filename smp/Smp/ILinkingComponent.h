// Stand-in for the ECSS-E-ST-40-07C header <Smp/ILinkingComponent.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ILINKINGCOMPONENT_H_
#define VERIF_SMP_ILINKINGCOMPONENT_H_

#include <Smp/IComponent.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class ILinkingComponent : public virtual ::Smp::IComponent {
public:
  ~ILinkingComponent() noexcept override = default;
  virtual void RemoveLinks(const IComponent *target) = 0;
};
} // namespace Smp

#endif
