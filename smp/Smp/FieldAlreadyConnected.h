// Stand-in for the ECSS-E-ST-40-07C header <Smp/FieldAlreadyConnected.h>, written for the checks in /verif.
#ifndef VERIF_SMP_FIELDALREADYCONNECTED_H_
#define VERIF_SMP_FIELDALREADYCONNECTED_H_

#include <Smp/Exception.h>

namespace Smp {
class IDataflowField;
class IField;
} // namespace Smp

namespace Smp {
class FieldAlreadyConnected : public virtual ::Smp::Exception {
public:
  ~FieldAlreadyConnected() noexcept override = default;
  virtual const IDataflowField* GetSource() const noexcept = 0;
  virtual const IField* GetTarget() const noexcept = 0;
};
} // namespace Smp

#endif
