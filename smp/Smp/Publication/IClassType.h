// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IClassType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_ICLASSTYPE_H_
#define VERIF_SMP_PUBLICATION_ICLASSTYPE_H_

#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IStructureType.h>

namespace Smp::Publication {
class IClassType : public virtual ::Smp::Publication::IStructureType {
public:
  ~IClassType() noexcept override = default;

};
} // namespace Smp::Publication

#endif
