// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEntryPoint.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IENTRYPOINT_H_
#define VERIF_SMP_IENTRYPOINT_H_

#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IEntryPoint : public virtual ::Smp::IObject {
public:
  ~IEntryPoint() noexcept override = default;
  virtual void Execute() const = 0;
};
using EntryPointCollection = ::Smp::ICollection<IEntryPoint>;
} // namespace Smp

#endif
