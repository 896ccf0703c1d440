// Stand-in for the ECSS-E-ST-40-07C header <Smp/IDataflowField.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IDATAFLOWFIELD_H_
#define VERIF_SMP_IDATAFLOWFIELD_H_

#include <Smp/IField.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IDataflowField : public virtual ::Smp::IField {
public:
  ~IDataflowField() noexcept override = default;
  virtual void Connect(IField *target) = 0;
  virtual void Push() = 0;
};
} // namespace Smp

#endif
