// Stand-in for the ECSS-E-ST-40-07C header <Smp/Exception.h>, written for the checks in /verif.
#ifndef VERIF_SMP_EXCEPTION_H_
#define VERIF_SMP_EXCEPTION_H_

#include <Smp/PrimitiveTypes.h>
#include <exception>

namespace Smp {
class IObject;
} // namespace Smp

namespace Smp {
class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  const char *what() const noexcept override = 0;
  virtual String8 GetName() const noexcept = 0;
  virtual String8 GetDescription() const noexcept = 0;
  virtual String8 GetMessage() const noexcept = 0;
  virtual const IObject *GetSender() const noexcept = 0;
};
} // namespace Smp

#endif
