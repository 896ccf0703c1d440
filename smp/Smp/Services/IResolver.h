// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/IResolver.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_IRESOLVER_H_
#define VERIF_SMP_SERVICES_IRESOLVER_H_

#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp::Services {
class IResolver : public virtual ::Smp::IService {
public:
  ~IResolver() noexcept override = default;
  virtual IObject *ResolveAbsolute(String8 absolutePath) = 0;
  virtual IObject *ResolveRelative(String8 relativePath, const IComponent *sender) = 0;
};
} // namespace Smp::Services

#endif
