// The types generated for the tests of the repository.
#ifndef FX_TYPES_H_
#define FX_TYPES_H_
#include <Xsmp/Tests/Types/BoolArray.h>
#include <Xsmp/Tests/Types/Char8Array.h>
#include <Xsmp/Tests/Types/Enum1.h>
#include <Xsmp/Tests/Types/Enum1Array.h>
#include <Xsmp/Tests/Types/Float1.h>
#include <Xsmp/Tests/Types/Float1Array.h>
#include <Xsmp/Tests/Types/Float32Array.h>
#include <Xsmp/Tests/Types/Float64Array.h>
#include <Xsmp/Tests/Types/Int16Array.h>
#include <Xsmp/Tests/Types/Int16Matrix.h>
#include <Xsmp/Tests/Types/Int32Array.h>
#include <Xsmp/Tests/Types/Int32Matrix.h>
#include <Xsmp/Tests/Types/Int64Array.h>
#include <Xsmp/Tests/Types/Int64Matrix.h>
#include <Xsmp/Tests/Types/Int8Array.h>
#include <Xsmp/Tests/Types/Int8Matrix.h>
#include <Xsmp/Tests/Types/Integer1.h>
#include <Xsmp/Tests/Types/Integer1Array.h>
#include <Xsmp/Tests/Types/SimpleBoolArray.h>
#include <Xsmp/Tests/Types/SimpleChar8Array.h>
#include <Xsmp/Tests/Types/SimpleEnum1Array.h>
#include <Xsmp/Tests/Types/SimpleFloat1Array.h>
#include <Xsmp/Tests/Types/SimpleFloat32Array.h>
#include <Xsmp/Tests/Types/SimpleFloat64Array.h>
#include <Xsmp/Tests/Types/SimpleInt16Array.h>
#include <Xsmp/Tests/Types/SimpleInt16Matrix.h>
#include <Xsmp/Tests/Types/SimpleInt32Array.h>
#include <Xsmp/Tests/Types/SimpleInt32Matrix.h>
#include <Xsmp/Tests/Types/SimpleInt64Array.h>
#include <Xsmp/Tests/Types/SimpleInt64Matrix.h>
#include <Xsmp/Tests/Types/SimpleInt8Array.h>
#include <Xsmp/Tests/Types/SimpleInt8Matrix.h>
#include <Xsmp/Tests/Types/SimpleInteger1Array.h>
#include <Xsmp/Tests/Types/SimpleString1Array.h>
#include <Xsmp/Tests/Types/SimpleStructure.h>
#include <Xsmp/Tests/Types/SimpleUInt16Array.h>
#include <Xsmp/Tests/Types/SimpleUInt16Matrix.h>
#include <Xsmp/Tests/Types/SimpleUInt32Array.h>
#include <Xsmp/Tests/Types/SimpleUInt32Matrix.h>
#include <Xsmp/Tests/Types/SimpleUInt64Array.h>
#include <Xsmp/Tests/Types/SimpleUInt64Matrix.h>
#include <Xsmp/Tests/Types/SimpleUInt8Array.h>
#include <Xsmp/Tests/Types/SimpleUInt8Matrix.h>
#include <Xsmp/Tests/Types/String1.h>
#include <Xsmp/Tests/Types/String1Array.h>
#include <Xsmp/Tests/Types/StructureWithCustomFields.h>
#include <Xsmp/Tests/Types/UInt16Array.h>
#include <Xsmp/Tests/Types/UInt16Matrix.h>
#include <Xsmp/Tests/Types/UInt32Array.h>
#include <Xsmp/Tests/Types/UInt32Matrix.h>
#include <Xsmp/Tests/Types/UInt64Array.h>
#include <Xsmp/Tests/Types/UInt64Matrix.h>
#include <Xsmp/Tests/Types/UInt8Array.h>
#include <Xsmp/Tests/Types/UInt8Matrix.h>
#include <Xsmp/Tests/Types/Vector.h>
#include <Xsmp/Tests/Types/VectorArray.h>
#include <Xsmp/Tests/Types/VectorMatrix.h>

namespace fx {
inline void registerTypes(Smp::Publication::ITypeRegistry *typeRegistry) {
  ::Xsmp::Tests::Types::_Register_Enum1(typeRegistry);
  ::Xsmp::Tests::Types::_Register_String1(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Float1(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Integer1(typeRegistry);
  ::Xsmp::Tests::Types::_Register_BoolArray(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleBoolArray(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Char8Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleChar8Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int8Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt8Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int16Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt16Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int32Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt32Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int64Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt64Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt8Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt8Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt16Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt16Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt32Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt32Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt64Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt64Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Enum1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleEnum1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_String1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleString1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Float32Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleFloat32Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Float64Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleFloat64Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Float1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleFloat1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Integer1Array(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInteger1Array(typeRegistry);
  ::Xsmp::Tests::Types::Vector::_Register(typeRegistry);
  ::Xsmp::Tests::Types::_Register_VectorArray(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int8Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt8Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int16Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt16Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int32Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt32Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_Int64Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleInt64Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt8Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt8Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt16Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt16Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt32Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt32Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_UInt64Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_SimpleUInt64Matrix(typeRegistry);
  ::Xsmp::Tests::Types::_Register_VectorMatrix(typeRegistry);
  ::Xsmp::Tests::Types::SimpleStructure::_Register(typeRegistry);
  ::Xsmp::Tests::Types::StructureWithCustomFields::_Register(typeRegistry);
}
} // namespace fx
#endif
