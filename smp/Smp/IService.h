// Stand-in for the ECSS-E-ST-40-07C header <Smp/IService.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ISERVICE_H_
#define VERIF_SMP_ISERVICE_H_

#include <Smp/ICollection.h>
#include <Smp/IComponent.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IService : public virtual ::Smp::IComponent {
public:
  ~IService() noexcept override = default;

};
using ServiceCollection = ::Smp::ICollection<IService>;
} // namespace Smp

#endif
