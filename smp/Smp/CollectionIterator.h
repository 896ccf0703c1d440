// Stand-in for the ECSS-E-ST-40-07C header <Smp/CollectionIterator.h>, written for the checks in /verif.
#ifndef VERIF_SMP_COLLECTIONITERATOR_H_
#define VERIF_SMP_COLLECTIONITERATOR_H_

#include <cstddef>
#include <iterator>

namespace Smp {
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T *;
  using difference_type = std::ptrdiff_t;
  using pointer = T *;
  using reference = T *;

  CollectionIterator() noexcept : _collection(nullptr), _index(0) {}
  CollectionIterator(const ICollection<T> &collection, std::size_t index)
      : _collection(&collection), _index(index) {}
  T *operator*() const { return _collection->at(_index); }
  T *operator->() const { return _collection->at(_index); }
  T *operator[](difference_type n) const {
    return _collection->at(_index + static_cast<std::size_t>(n));
  }
  CollectionIterator &operator++() { ++_index; return *this; }
  CollectionIterator operator++(int) { auto r = *this; ++_index; return r; }
  CollectionIterator &operator--() { --_index; return *this; }
  CollectionIterator operator--(int) { auto r = *this; --_index; return r; }
  CollectionIterator &operator+=(difference_type n) { _index += static_cast<std::size_t>(n); return *this; }
  CollectionIterator &operator-=(difference_type n) { _index -= static_cast<std::size_t>(n); return *this; }
  CollectionIterator operator+(difference_type n) const { auto r = *this; return r += n; }
  CollectionIterator operator-(difference_type n) const { auto r = *this; return r -= n; }
  difference_type operator-(const CollectionIterator &o) const {
    return static_cast<difference_type>(_index) - static_cast<difference_type>(o._index);
  }
  bool operator==(const CollectionIterator &o) const { return _index == o._index && _collection == o._collection; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
  bool operator<(const CollectionIterator &o) const { return _index < o._index; }
  bool operator>(const CollectionIterator &o) const { return _index > o._index; }
  bool operator<=(const CollectionIterator &o) const { return _index <= o._index; }
  bool operator>=(const CollectionIterator &o) const { return _index >= o._index; }

private:
  const ICollection<T> *_collection;
  std::size_t _index;
};
} // namespace Smp

#endif
