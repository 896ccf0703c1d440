// Stand-in for the ECSS-E-ST-40-07C header <Smp/Publication/IPublishOperation.h>, written for the checks in /verif.
#ifndef VERIF_SMP_PUBLICATION_IPUBLISHOPERATION_H_
#define VERIF_SMP_PUBLICATION_IPUBLISHOPERATION_H_

#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/Uuid.h>

namespace Smp::Publication {
class IPublishOperation {
public:
  virtual ~IPublishOperation() noexcept = default;
  virtual void PublishParameter(String8 name, String8 description, Uuid typeUuid, ParameterDirectionKind direction = ParameterDirectionKind::PDK_In) = 0;
};
} // namespace Smp::Publication

#endif
