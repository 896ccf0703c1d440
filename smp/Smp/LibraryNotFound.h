// Stand-in for the ECSS-E-ST-40-07C header <Smp/LibraryNotFound.h>, written for the checks in /verif.
#ifndef VERIF_SMP_LIBRARYNOTFOUND_H_
#define VERIF_SMP_LIBRARYNOTFOUND_H_

#include <Smp/Exception.h>

namespace Smp {
class LibraryNotFound : public virtual ::Smp::Exception {
public:
  ~LibraryNotFound() noexcept override = default;
  virtual String8 GetLibraryName() const noexcept = 0;
};
} // namespace Smp

#endif
