// Stand-in for the ECSS-E-ST-40-07C header <Smp/IStructureField.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ISTRUCTUREFIELD_H_
#define VERIF_SMP_ISTRUCTUREFIELD_H_

#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IStructureField : public virtual ::Smp::IField {
public:
  ~IStructureField() noexcept override = default;
  virtual const FieldCollection *GetFields() const = 0;
  virtual IField *GetField(String8 name) const = 0;
};
} // namespace Smp

#endif
