// Stand-in for the ECSS-E-ST-40-07C header <Smp/ISimpleField.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ISIMPLEFIELD_H_
#define VERIF_SMP_ISIMPLEFIELD_H_

#include <Smp/AnySimple.h>
#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class ISimpleField : public virtual ::Smp::IField {
public:
  ~ISimpleField() noexcept override = default;
  virtual PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual AnySimple GetValue() const = 0;
  virtual void SetValue(AnySimple value) = 0;
};
} // namespace Smp

#endif
