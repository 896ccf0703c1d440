// Stand-in for the ECSS-E-ST-40-07C header <Smp/InvalidFieldType.h>, written for the checks in /verif.
#ifndef VERIF_SMP_INVALIDFIELDTYPE_H_
#define VERIF_SMP_INVALIDFIELDTYPE_H_

#include <Smp/Exception.h>

namespace Smp {
class InvalidFieldType : public virtual ::Smp::Exception {
public:
  ~InvalidFieldType() noexcept override = default;
};
} // namespace Smp

#endif
