// Stand-in for the ECSS-E-ST-40-07C header <Smp/IArrayField.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IARRAYFIELD_H_
#define VERIF_SMP_IARRAYFIELD_H_

#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IArrayField : public virtual ::Smp::IField {
public:
  ~IArrayField() noexcept override = default;
  virtual UInt64 GetSize() const = 0;
  virtual IField *GetItem(UInt64 index) const = 0;
};
} // namespace Smp

#endif
