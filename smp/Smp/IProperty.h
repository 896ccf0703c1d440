// Stand-in for the ECSS-E-ST-40-07C header <Smp/IProperty.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IPROPERTY_H_
#define VERIF_SMP_IPROPERTY_H_

#include <Smp/AccessKind.h>
#include <Smp/AnySimple.h>
#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>

namespace Smp::Publication {
class IType;
} // namespace Smp::Publication

namespace Smp {
class IProperty : public virtual ::Smp::IObject {
public:
  ~IProperty() noexcept override = default;
  virtual Publication::IType *GetType() const = 0;
  virtual AccessKind GetAccess() const = 0;
  virtual ViewKind GetView() const = 0;
  virtual AnySimple GetValue() const = 0;
  virtual void SetValue(AnySimple value) = 0;
};
using PropertyCollection = ::Smp::ICollection<IProperty>;
} // namespace Smp

#endif
