// Stand-in for the ECSS-E-ST-40-07C header <Smp/AnySimple.h>, written for the checks in /verif.
#ifndef VERIF_SMP_ANYSIMPLE_H_
#define VERIF_SMP_ANYSIMPLE_H_

#include <Smp/PrimitiveTypes.h>
#include <iosfwd>

namespace Smp {
class AnySimple {
public:
  AnySimple();
  explicit AnySimple(PrimitiveTypeKind kind);
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  template <typename T> AnySimple(PrimitiveTypeKind kind, T v) : AnySimple() {
    SetValue(kind, v);
  }
  ~AnySimple();
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);

  void SetValue(PrimitiveTypeKind kind, Bool v);
  void SetValue(PrimitiveTypeKind kind, Char8 v);
  void SetValue(PrimitiveTypeKind kind, String8 v);
  void SetValue(PrimitiveTypeKind kind, UInt8 v);
  void SetValue(PrimitiveTypeKind kind, UInt16 v);
  void SetValue(PrimitiveTypeKind kind, UInt32 v);
  void SetValue(PrimitiveTypeKind kind, UInt64 v);
  void SetValue(PrimitiveTypeKind kind, Int8 v);
  void SetValue(PrimitiveTypeKind kind, Int16 v);
  void SetValue(PrimitiveTypeKind kind, Int32 v);
  void SetValue(PrimitiveTypeKind kind, Int64 v);
  void SetValue(PrimitiveTypeKind kind, Float32 v);
  void SetValue(PrimitiveTypeKind kind, Float64 v);

  operator Bool() const;
  operator Char8() const;
  operator String8() const;
  operator UInt8() const;
  operator UInt16() const;
  operator UInt32() const;
  operator UInt64() const;
  operator Int8() const;
  operator Int16() const;
  operator Int32() const;
  operator Int64() const;
  operator Float32() const;
  operator Float64() const;

  String8 MoveString();
  PrimitiveTypeKind GetType() const noexcept;

  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;

  PrimitiveTypeKind type;
  union {
    Char8 char8Value;
    Bool boolValue;
    Int8 int8Value;
    UInt8 uInt8Value;
    Int16 int16Value;
    UInt16 uInt16Value;
    Int32 int32Value;
    UInt32 uInt32Value;
    Int64 int64Value;
    UInt64 uInt64Value;
    Float32 float32Value;
    Float64 float64Value;
    Duration durationValue;
    DateTime dateTimeValue;
    String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
} // namespace Smp

#endif
