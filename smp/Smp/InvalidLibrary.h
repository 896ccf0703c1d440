// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidLibrary.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDLIBRARY_H_
#define VERIF_SMP_INVALIDLIBRARY_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidLibrary : public virtual ::Smp::Exception {
public:
  ~InvalidLibrary() noexcept override = default;
  virtual String8 GetLibraryName() const noexcept = 0;
};
} // namespace Smp

#endif
