// Stand-in for the ECSS-E-ST-40-07C header <Smp/IParameter.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IPARAMETER_H_
#define VERIF_SMP_IPARAMETER_H_

#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/ParameterDirectionKind.h>

namespace Smp::Publication {
class IType;
} // namespace Smp::Publication

namespace Smp {
class IParameter : public virtual ::Smp::IObject {
public:
  ~IParameter() noexcept override = default;
  virtual Publication::IType *GetType() const = 0;
  virtual Publication::ParameterDirectionKind GetDirection() const = 0;
};
using ParameterCollection = ::Smp::ICollection<IParameter>;
} // namespace Smp

#endif
