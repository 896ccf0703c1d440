// Stand-in for the ECSS-E-ST-40-07C header <Smp/ICollection.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ICOLLECTION_H_
#define VERIF_SMP_ICOLLECTION_H_

#include <Smp/CollectionIterator.h>
#include <Smp/IObject.h>
#include <Smp/PrimitiveTypes.h>
#include <cstddef>

namespace Smp {
template <typename T> class ICollection : public virtual IObject {
public:
  using value_type = T;
  using const_iterator = CollectionIterator<T>;
  using iterator = CollectionIterator<T>;
  ~ICollection() noexcept override = default;
  virtual T *at(String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
} // namespace Smp

#endif
