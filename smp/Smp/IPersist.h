// Stand-in for the ECSS-E-ST-40-07C header <Smp/IPersist.h>, written for the checks in /verif.
#ifndef VERIF_SMP_IPERSIST_H_
#define VERIF_SMP_IPERSIST_H_

#include <Smp/IObject.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/PrimitiveTypes.h>

namespace Smp {
class IPersist : public virtual ::Smp::IObject {
public:
  ~IPersist() noexcept override = default;
  virtual void Restore(IStorageReader *reader) = 0;
  virtual void Store(IStorageWriter *writer) = 0;
};
} // namespace Smp

#endif
