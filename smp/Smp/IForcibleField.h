// Stand-in for the ECSS-E-ST-40-07C header <Smp/IForcibleField.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IFORCIBLEFIELD_H_
#define VERIF_SMP_IFORCIBLEFIELD_H_

#include <Smp/ISimpleField.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IForcibleField : public virtual ::Smp::ISimpleField {
public:
  ~IForcibleField() noexcept override = default;
  virtual void Force(AnySimple value) = 0;
  virtual void Unforce() = 0;
  virtual Bool IsForced() = 0;
  virtual void Freeze() = 0;
};
} // namespace Smp

#endif
