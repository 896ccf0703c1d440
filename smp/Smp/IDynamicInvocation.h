// Stand-in for the ECSS-E-ST-40-07C header <Smp/IDynamicInvocation.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IDYNAMICINVOCATION_H_
#define VERIF_SMP_IDYNAMICINVOCATION_H_

#include <Smp/IComponent.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IRequest;
} // namespace Smp

namespace Smp {
class IDynamicInvocation : public virtual ::Smp::IComponent {
public:
  ~IDynamicInvocation() noexcept override = default;
  virtual IRequest *CreateRequest(String8 operationName) = 0;
  virtual void Invoke(IRequest *request) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
  virtual const PropertyCollection *GetProperties() const = 0;
  virtual const OperationCollection *GetOperations() const = 0;
};
} // namespace Smp

#endif
