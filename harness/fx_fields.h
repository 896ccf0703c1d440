// Typed and published fields of many kinds, and a generic walk over them.
#ifndef FX_FIELDS_H_
#define FX_FIELDS_H_
#include "fx.h"
#include "fx_types.h"
#include <Smp/IArrayField.h>
#include <Smp/IFailure.h>
#include <Smp/IForcibleField.h>
#include <Smp/IPublication.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Xsmp/Field.h>
#include <cstring>
#include <string>
#include <vector>

namespace fx {
namespace T = Xsmp::Tests::Types;

struct TypedFields {
  Smp::Publication::ITypeRegistry *t;
  Smp::IObject *o;
  Xsmp::Field<Smp::Int32> plain{t, Smp::Uuids::Uuid_Int32, "plain", "", o};
  Xsmp::Field<Smp::Float64>::forcible forced{t, Smp::Uuids::Uuid_Float64,
                                             "forced", "", o};
  Xsmp::Field<Smp::Bool>::failure failure{t, Smp::Uuids::Uuid_Bool, "failure",
                                          "", o};
  Xsmp::Field<Smp::Int16>::transient temporary{t, Smp::Uuids::Uuid_Int16,
                                               "temporary", "", o};
  Xsmp::Field<Smp::UInt64>::output out{t, Smp::Uuids::Uuid_UInt64, "out", "",
                                       o};
  Xsmp::Field<Smp::Char8>::input in{t, Smp::Uuids::Uuid_Char8, "in", "", o};
  Xsmp::Field<Smp::Float32>::forcible::failure all{t, Smp::Uuids::Uuid_Float32,
                                                   "all", "", o};
  Xsmp::Field<Smp::UInt8>::forcible::failure::transient allTemporary{
      t, Smp::Uuids::Uuid_UInt8, "allTemporary", "", o};
  Xsmp::Field<T::Enum1> enumeration{t, T::Uuid_Enum1, "enumeration", "", o};
  Xsmp::Field<T::String1> string{t, T::Uuid_String1, "string", "", o};
  Xsmp::Field<T::Int32Array> array{t, T::Uuid_Int32Array, "array", "", o};
  Xsmp::Field<T::Int32Array>::forcible forcedArray{t, T::Uuid_Int32Array,
                                                   "forcedArray", "", o};
  Xsmp::Field<T::Int64Array>::failure failureArray{t, T::Uuid_Int64Array,
                                                   "failureArray", "", o};
  Xsmp::Field<T::SimpleInt16Array> simpleArray{t, T::Uuid_SimpleInt16Array,
                                               "simpleArray", "", o};
  Xsmp::Field<T::SimpleFloat64Array>::output::failure simpleOut{
      t, T::Uuid_SimpleFloat64Array, "simpleOut", "", o};
  Xsmp::Field<T::SimpleString1Array> strings{t, T::Uuid_SimpleString1Array,
                                             "strings", "", o};
  Xsmp::Field<T::SimpleUInt8Array>::transient temporaryArray{
      t, T::Uuid_SimpleUInt8Array, "temporaryArray", "", o};
  Xsmp::Field<T::Vector> vector{t, T::Uuid_Vector, "vector", "", o,
                                Smp::ViewKind::VK_None};
  Xsmp::Field<T::Vector>::forcible::failure forcedVector{
      t, T::Uuid_Vector, "forcedVector", "", o, Smp::ViewKind::VK_None};
  Xsmp::Field<T::VectorArray>::output vectors{t, T::Uuid_VectorArray, "vectors",
                                              "", o};
  Xsmp::Field<T::Int64Matrix> matrix{t, T::Uuid_Int64Matrix, "matrix", "", o};
  Xsmp::Field<T::SimpleInt8Matrix> simpleMatrix{t, T::Uuid_SimpleInt8Matrix,
                                                "simpleMatrix", "", o};
  Xsmp::Field<T::StructureWithCustomFields> custom{
      t, T::Uuid_StructureWithCustomFields, "custom", "", o,
      Smp::ViewKind::VK_None};
  Xsmp::Field<T::StructureWithCustomFields>::transient customTemporary{
      t, T::Uuid_StructureWithCustomFields, "customTemporary", "", o,
      Smp::ViewKind::VK_None};
  TypedFields(Smp::Publication::ITypeRegistry *types, Smp::IObject *owner)
      : t(types), o(owner) {}
  std::vector<Smp::IField *> list() {
    return {&plain,        &forced,      &failure,      &temporary,
            &out,          &in,          &all,          &allTemporary,
            &enumeration,  &string,      &array,        &forcedArray,
            &failureArray, &simpleArray, &simpleOut,    &strings,
            &temporaryArray, &vector,    &forcedVector, &vectors,
            &matrix,       &simpleMatrix, &custom,      &customTemporary};
  }
};

struct PublishedFields {
  Smp::Bool b = false;
  Smp::Char8 c = 0;
  Smp::Int8 i8 = 0;
  Smp::Int16 i16 = 0;
  Smp::Int32 i32 = 0;
  Smp::Int64 i64 = 0;
  Smp::UInt8 u8 = 0;
  Smp::UInt16 u16 = 0;
  Smp::UInt32 u32 = 0;
  Smp::UInt64 u64 = 0;
  Smp::Float32 f32 = 0;
  Smp::Float64 f64 = 0;
  Smp::Duration duration = 0;
  Smp::DateTime date = 0;
  Smp::Int32 temporary = 0;
  T::Enum1 enumeration{};
  T::String1 string{};
  T::SimpleInt32Array simple{};
  T::Float32Array array{};
  T::VectorMatrix matrix{};
  T::SimpleString1Array strings{};
  T::SimpleEnum1Array enums{};
  T::StructureWithCustomFields custom{};
  T::Vector temporaryVector{};
  Smp::UInt16 raw[5]{};
  Smp::Float64 temporaryRaw[3]{};
  Smp::Int64 item[3]{};
  Smp::Int32 member[3]{};
  void publish(Smp::IPublication *p) {
    constexpr auto v = Smp::ViewKind::VK_None;
    p->PublishField("p_b", "", &b);
    p->PublishField("p_c", "", &c);
    p->PublishField("p_i8", "", &i8);
    p->PublishField("p_i16", "", &i16);
    p->PublishField("p_i32", "", &i32, v, true, false, true);
    p->PublishField("p_i64", "", &i64);
    p->PublishField("p_u8", "", &u8);
    p->PublishField("p_u16", "", &u16);
    p->PublishField("p_u32", "", &u32);
    p->PublishField("p_u64", "", &u64);
    p->PublishField("p_f32", "", &f32);
    p->PublishField("p_f64", "", &f64);
    p->PublishField("p_duration", "", &duration, Smp::Uuids::Uuid_Duration);
    p->PublishField("p_date", "", &date, Smp::Uuids::Uuid_DateTime);
    p->PublishField("p_temporary", "", &temporary, v, false);
    p->PublishField("p_enumeration", "", &enumeration, T::Uuid_Enum1);
    p->PublishField("p_string", "", &string, T::Uuid_String1);
    p->PublishField("p_simple", "", &simple, T::Uuid_SimpleInt32Array);
    p->PublishField("p_array", "", &array, T::Uuid_Float32Array, v, true, true);
    p->PublishField("p_matrix", "", &matrix, T::Uuid_VectorMatrix, v, true,
                    false, true);
    p->PublishField("p_strings", "", &strings, T::Uuid_SimpleString1Array);
    p->PublishField("p_enums", "", &enums, T::Uuid_SimpleEnum1Array);
    p->PublishField("p_custom", "", &custom,
                    T::Uuid_StructureWithCustomFields);
    p->PublishField("p_temporaryVector", "", &temporaryVector, T::Uuid_Vector,
                    v, false);
    p->PublishArray("p_raw", "", 5, raw, Smp::PrimitiveTypeKind::PTK_UInt16);
    p->PublishArray("p_temporaryRaw", "", 3, temporaryRaw,
                    Smp::PrimitiveTypeKind::PTK_Float64, v, false);
    auto *items = p->PublishArray("p_items", "");
    items->PublishField("a", "", &item[0]);
    items->PublishField("b", "", &item[1], v, false);
    items->PublishField("c", "", &item[2]);
    auto *members = p->PublishStructure("p_members", "");
    members->PublishField("a", "", &member[0]);
    auto *inner = members->PublishStructure("inner", "");
    inner->PublishField("b", "", &member[1]);
    auto *hidden = members->PublishStructure("hidden", "", v, false);
    hidden->PublishField("c", "", &member[2]);
  }
};

struct Leaf {
  Smp::IField *field;
  int index; // -1: simple field
  bool state;
  std::string path;
};
struct Walk {
  std::vector<Leaf> leaves;
  std::vector<std::pair<Smp::IFailure *, bool>> failures; // is it a state
  std::vector<std::pair<Smp::IForcibleField *, bool>> forcible;
  void visit(Smp::IField *f, bool state, std::string path) {
    state = state && f->IsState();
    path += f->GetName();
    if (auto *x = dynamic_cast<Smp::IFailure *>(f))
      failures.emplace_back(x, state);
    if (auto *x = dynamic_cast<Smp::IForcibleField *>(f))
      forcible.emplace_back(x, state);
    if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
      for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
        leaves.push_back({f, static_cast<int>(i), state,
                          path + "[" + std::to_string(i) + "]"});
    } else if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) {
      for (Smp::UInt64 i = 0; i < r->GetSize(); ++i)
        visit(r->GetItem(i), state, path);
    } else if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
      for (auto *x : *s->GetFields())
        visit(x, state, path + ".");
    } else
      leaves.push_back({f, -1, state, path});
  }
};
inline Smp::AnySimple get(Leaf const &l) {
  return l.index >= 0
             ? dynamic_cast<Smp::ISimpleArrayField *>(l.field)->GetValue(
                   static_cast<Smp::UInt64>(l.index))
             : dynamic_cast<Smp::ISimpleField *>(l.field)->GetValue();
}
inline void set(Leaf const &l, Smp::AnySimple const &v) {
  if (l.index >= 0)
    dynamic_cast<Smp::ISimpleArrayField *>(l.field)->SetValue(
        static_cast<Smp::UInt64>(l.index), v);
  else
    dynamic_cast<Smp::ISimpleField *>(l.field)->SetValue(v);
}
// kind and value
inline std::string show(Smp::AnySimple const &v) {
  using K = Smp::PrimitiveTypeKind;
  auto number = [](auto x) { return std::to_string(x); };
  auto bits = [](auto x) {
    char buffer[64];
    std::snprintf(buffer, sizeof(buffer), "%a", static_cast<double>(x));
    return std::string(buffer);
  };
  switch (v.type) {
  case K::PTK_Bool:
    return static_cast<Smp::Bool>(v) ? "true" : "false";
  case K::PTK_Char8:
    return "c" + number(static_cast<int>(static_cast<Smp::Char8>(v)));
  case K::PTK_Int8:
    return "i8 " + number(static_cast<Smp::Int8>(v));
  case K::PTK_Int16:
    return "i16 " + number(static_cast<Smp::Int16>(v));
  case K::PTK_Int32:
    return "i32 " + number(static_cast<Smp::Int32>(v));
  case K::PTK_Int64:
    return "i64 " + number(static_cast<Smp::Int64>(v));
  case K::PTK_UInt8:
    return "u8 " + number(static_cast<Smp::UInt8>(v));
  case K::PTK_UInt16:
    return "u16 " + number(static_cast<Smp::UInt16>(v));
  case K::PTK_UInt32:
    return "u32 " + number(static_cast<Smp::UInt32>(v));
  case K::PTK_UInt64:
    return "u64 " + number(static_cast<Smp::UInt64>(v));
  case K::PTK_Float32:
    return "f32 " + bits(static_cast<Smp::Float32>(v));
  case K::PTK_Float64:
    return "f64 " + bits(static_cast<Smp::Float64>(v));
  case K::PTK_Duration:
    return "duration " + number(static_cast<Smp::Duration>(v));
  case K::PTK_DateTime:
    return "date " + number(static_cast<Smp::DateTime>(v));
  case K::PTK_String8:
    return "\"" + str(static_cast<Smp::String8>(v)) + "\"";
  default:
    return "none";
  }
}
// a value of the given kind, from a number
inline Smp::AnySimple value(Smp::PrimitiveTypeKind k, uint64_t raw) {
  using K = Smp::PrimitiveTypeKind;
  static const char *const texts[] = {"",    "a",         "abc",
                                      "xyz", "123456789", "a longer string "
                                                          "than the others"};
  Smp::AnySimple a;
  switch (k) {
  case K::PTK_Bool:
    a.SetValue(k, static_cast<Smp::Bool>(raw & 1));
    break;
  case K::PTK_Char8:
    a.SetValue(k, static_cast<Smp::Char8>(raw));
    break;
  case K::PTK_Int8:
    a.SetValue(k, static_cast<Smp::Int8>(raw));
    break;
  case K::PTK_Int16:
    a.SetValue(k, static_cast<Smp::Int16>(raw));
    break;
  case K::PTK_Int32:
    a.SetValue(k, static_cast<Smp::Int32>(raw));
    break;
  case K::PTK_Int64:
  case K::PTK_Duration:
  case K::PTK_DateTime:
    a.SetValue(k, static_cast<Smp::Int64>(raw));
    break;
  case K::PTK_UInt8:
    a.SetValue(k, static_cast<Smp::UInt8>(raw));
    break;
  case K::PTK_UInt16:
    a.SetValue(k, static_cast<Smp::UInt16>(raw));
    break;
  case K::PTK_UInt32:
    a.SetValue(k, static_cast<Smp::UInt32>(raw));
    break;
  case K::PTK_UInt64:
    a.SetValue(k, static_cast<Smp::UInt64>(raw));
    break;
  case K::PTK_Float32:
    a.SetValue(k, static_cast<Smp::Float32>(static_cast<int64_t>(raw)) / 8);
    break;
  case K::PTK_Float64:
    a.SetValue(k, static_cast<Smp::Float64>(static_cast<int64_t>(raw)) / 8);
    break;
  case K::PTK_String8:
    a.SetValue(k, texts[raw % 6]);
    break;
  default:
    break;
  }
  return a;
}
inline Smp::PrimitiveTypeKind kind(Leaf const &l) {
  return get(l).type;
}
} // namespace fx
#endif
