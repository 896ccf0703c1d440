// Stand-in for the ECSS-E-ST-40-07C header <Smp/IRequest.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IREQUEST_H_
#define VERIF_SMP_IREQUEST_H_

#include <Smp/AnySimple.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IRequest {
public:
  virtual ~IRequest() noexcept = default;
  virtual String8 GetOperationName() const = 0;
  virtual Int32 GetParameterCount() const = 0;
  virtual Int32 GetParameterIndex(String8 parameterName) const = 0;
  virtual void SetParameterValue(Int32 index, AnySimple value) = 0;
  virtual AnySimple GetParameterValue(Int32 index) const = 0;
  virtual void SetReturnValue(AnySimple value) = 0;
  virtual AnySimple GetReturnValue() const = 0;
};
} // namespace Smp

#endif
