// Stand-in for the ECSS-E-ST-40-07C header <Smp/IEntryPointPublisher.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IENTRYPOINTPUBLISHER_H_
#define VERIF_SMP_IENTRYPOINTPUBLISHER_H_

#include <Smp/IEntryPoint.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IEntryPointPublisher : public virtual ::Smp::IObject {
public:
  ~IEntryPointPublisher() noexcept override = default;
  virtual const EntryPointCollection *GetEntryPoints() const = 0;
  virtual IEntryPoint *GetEntryPoint(String8 name) const = 0;
};
} // namespace Smp

#endif
