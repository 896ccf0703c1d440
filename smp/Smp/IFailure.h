// Stand-in for the ECSS-E-ST-40-07C header <Smp/IFailure.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IFAILURE_H_
#define VERIF_SMP_IFAILURE_H_

#include <Smp/ICollection.h>
#include <Smp/IPersist.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IFailure : public virtual ::Smp::IPersist {
public:
  ~IFailure() noexcept override = default;
  virtual void Fail() = 0;
  virtual void Unfail() = 0;
  virtual Bool IsFailed() const = 0;
};
using FailureCollection = ::Smp::ICollection<IFailure>;
} // namespace Smp

#endif
