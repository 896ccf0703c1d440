// Stand-in for the ECSS-E-ST-40-07C header <Smp/IField.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IFIELD_H_
#define VERIF_SMP_IFIELD_H_

#include <Smp/ICollection.h>
#include <Smp/IPersist.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>

namespace Smp::Publication {
class IType;
} // namespace Smp::Publication

namespace Smp {
class IField : public virtual ::Smp::IPersist {
public:
  ~IField() noexcept override = default;
  virtual ViewKind GetView() const = 0;
  virtual Bool IsState() const = 0;
  virtual Bool IsInput() const = 0;
  virtual Bool IsOutput() const = 0;
  virtual const Publication::IType *GetType() const = 0;
};
using FieldCollection = ::Smp::ICollection<IField>;
} // namespace Smp

#endif
