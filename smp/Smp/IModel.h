// Stand-in for the ECSS-E-ST-40-07C header <Smp/IModel.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IMODEL_H_
#define VERIF_SMP_IMODEL_H_

#include <Smp/ICollection.h>
#include <Smp/IComponent.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IModel : public virtual ::Smp::IComponent {
public:
  ~IModel() noexcept override = default;

};
using ModelCollection = ::Smp::ICollection<IModel>;
} // namespace Smp

#endif
