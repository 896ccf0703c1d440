// Stand-in for the ECSS-E-ST-40-07C header <Smp/IOperation.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IOPERATION_H_
#define VERIF_SMP_IOPERATION_H_

#include <Smp/ICollection.h>
#include <Smp/IObject.h>
#include <Smp/IParameter.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/ViewKind.h>

namespace Smp {
class IRequest;
} // namespace Smp

namespace Smp {
class IOperation : public virtual ::Smp::IObject {
public:
  ~IOperation() noexcept override = default;
  virtual const ParameterCollection *GetParameters() const = 0;
  virtual IParameter *GetParameter(String8 name) const = 0;
  virtual IParameter *GetReturnParameter() const = 0;
  virtual ViewKind GetView() const = 0;
  virtual IRequest *CreateRequest() = 0;
  virtual void Invoke(IRequest *request) = 0;
  virtual void DeleteRequest(IRequest *request) = 0;
};
using OperationCollection = ::Smp::ICollection<IOperation>;
} // namespace Smp

#endif
