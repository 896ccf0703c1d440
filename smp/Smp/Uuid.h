// Stand-in for the ECSS-E-ST-40-07C header <Smp/Uuid.h>, written for the checks in /verif.
#ifndef VERIF_SMP_UUID_H_
#define VERIF_SMP_UUID_H_

#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iosfwd>

namespace Smp {
struct Uuid {
  std::uint32_t Data1;
  std::array<std::uint16_t, 3> Data2;
  std::array<std::uint8_t, 6> Data3;

  constexpr Uuid() : Data1{0}, Data2{{0, 0, 0}}, Data3{{0, 0, 0, 0, 0, 0}} {}
  constexpr Uuid(std::uint32_t d1, std::array<std::uint16_t, 3> d2,
                 std::array<std::uint8_t, 6> d3)
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  constexpr Uuid(std::uint32_t d1, std::uint16_t d21, std::uint16_t d22,
                 std::uint16_t d23, std::uint64_t d3)
      : Data1{d1}, Data2{{d21, d22, d23}},
        Data3{{static_cast<std::uint8_t>((d3 >> 40U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 32U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 24U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 16U) & 0xFFU),
               static_cast<std::uint8_t>((d3 >> 8U) & 0xFFU),
               static_cast<std::uint8_t>(d3 & 0xFFU)}} {}
  Uuid(const char *value);

  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);

struct Uuids {
  static constexpr Uuid Uuid_Void{0x4d1f0c01U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b001ULL};
  static constexpr Uuid Uuid_Char8{0x4d1f0c02U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b002ULL};
  static constexpr Uuid Uuid_Bool{0x4d1f0c03U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b003ULL};
  static constexpr Uuid Uuid_Int8{0x4d1f0c04U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b004ULL};
  static constexpr Uuid Uuid_UInt8{0x4d1f0c05U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b005ULL};
  static constexpr Uuid Uuid_Int16{0x4d1f0c06U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b006ULL};
  static constexpr Uuid Uuid_UInt16{0x4d1f0c07U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b007ULL};
  static constexpr Uuid Uuid_Int32{0x4d1f0c08U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b008ULL};
  static constexpr Uuid Uuid_UInt32{0x4d1f0c09U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b009ULL};
  static constexpr Uuid Uuid_Int64{0x4d1f0c0aU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b00aULL};
  static constexpr Uuid Uuid_UInt64{0x4d1f0c0bU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b00bULL};
  static constexpr Uuid Uuid_Float32{0x4d1f0c0cU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b00cULL};
  static constexpr Uuid Uuid_Float64{0x4d1f0c0dU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b00dULL};
  static constexpr Uuid Uuid_Duration{0x4d1f0c0eU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b00eULL};
  static constexpr Uuid Uuid_DateTime{0x4d1f0c0fU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b00fULL};
  static constexpr Uuid Uuid_String8{0x4d1f0c10U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b010ULL};
  static constexpr Uuid Uuid_PrimitiveTypeKind{0x4d1f0c11U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b011ULL};
  static constexpr Uuid Uuid_Uuid{0x4d1f0c12U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b012ULL};
  static constexpr Uuid Uuid_AccessKind{0x4d1f0c13U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b013ULL};
  static constexpr Uuid Uuid_ViewKind{0x4d1f0c14U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b014ULL};
  static constexpr Uuid Uuid_ComponentStateKind{0x4d1f0c15U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b015ULL};
  static constexpr Uuid Uuid_SimulatorStateKind{0x4d1f0c16U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b016ULL};
  static constexpr Uuid Uuid_ParameterDirectionKind{0x4d1f0c17U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b017ULL};
  static constexpr Uuid Uuid_TimeKind{0x4d1f0c18U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b018ULL};
  static constexpr Uuid Uuid_EventId{0x4d1f0c19U, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b019ULL};
  static constexpr Uuid Uuid_LogMessageKind{0x4d1f0c1aU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b01aULL};
  static constexpr Uuid Uuid_AnySimple{0x4d1f0c1bU, 0x9a3bU, 0x4c5dU, 0x8e6fU, 0x5157ac09b01bULL};
};
} // namespace Smp

namespace std {
template <> struct hash<::Smp::Uuid> {
  size_t operator()(const ::Smp::Uuid &uuid) const;
};
} // namespace std

#endif
