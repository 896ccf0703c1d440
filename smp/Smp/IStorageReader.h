// Stand-in for the ECSS-E-ST-40-07C header <Smp/IStorageReader.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ISTORAGEREADER_H_
#define VERIF_SMP_ISTORAGEREADER_H_

#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IStorageReader {
public:
  virtual ~IStorageReader() noexcept = default;
  virtual void Restore(void *address, UInt64 size) = 0;
  virtual String8 GetStateVectorFileName() const = 0;
  virtual String8 GetStateVectorFilePath() const = 0;
};
} // namespace Smp

#endif
