// Stand-in for the ECSS-E-ST-40-07C header <Smp/IFallibleModel.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IFALLIBLEMODEL_H_
#define VERIF_SMP_IFALLIBLEMODEL_H_

#include <Smp/IFailure.h>
#include <Smp/IModel.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IFallibleModel : public virtual ::Smp::IModel {
public:
  ~IFallibleModel() noexcept override = default;
  virtual Bool IsFailed() const = 0;
  virtual const FailureCollection *GetFailures() const = 0;
  virtual IFailure *GetFailure(String8 name) const = 0;
};
} // namespace Smp

#endif
