// Written by harness/gen_same.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	Boolean Same0_Char_Char(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Char(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_SByte(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_SByte(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_Byte(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Byte(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_Int16(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Int16(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_UInt16(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_UInt16(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_Int32(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Int32(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_UInt32(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_UInt32(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_Int64(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Int64(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_UInt64(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_UInt64(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_Single(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Single(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_Double(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_Double(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Char_String(Int32 v) { CharValue b_x((Char) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Char_String(Int32 v) { CharValue b_x((Char) (v + 48)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Char(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_SByte_Char(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_SByte(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Byte(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Int16(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_UInt16(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Int32(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_UInt32(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Int64(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_UInt64(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Single(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_Double(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_SByte_String(Int32 v) { SByteValue b_x((SByte) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Char(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Byte_Char(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_SByte(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Byte(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Int16(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_UInt16(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Int32(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_UInt32(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Int64(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_UInt64(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Single(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_Double(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Byte_String(Int32 v) { ByteValue b_x((Byte) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Char(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Int16_Char(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_SByte(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Byte(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Int16(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_UInt16(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Int32(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_UInt32(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Int64(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_UInt64(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Single(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_Double(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int16_String(Int32 v) { Int16Value b_x((Int16) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Char(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_UInt16_Char(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_SByte(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Byte(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Int16(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_UInt16(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Int32(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_UInt32(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Int64(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_UInt64(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Single(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_Double(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt16_String(Int32 v) { UInt16Value b_x((UInt16) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Char(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Int32_Char(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_SByte(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Byte(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Int16(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_UInt16(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Int32(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_UInt32(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Int64(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_UInt64(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Single(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_Double(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int32_String(Int32 v) { Int32Value b_x((Int32) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Char(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_UInt32_Char(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_SByte(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Byte(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Int16(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_UInt16(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Int32(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_UInt32(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Int64(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_UInt64(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Single(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_Double(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt32_String(Int32 v) { UInt32Value b_x((UInt32) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Char(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Int64_Char(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_SByte(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Byte(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Int16(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_UInt16(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Int32(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_UInt32(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Int64(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_UInt64(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Single(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_Double(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Int64_String(Int32 v) { Int64Value b_x((Int64) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Char(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_UInt64_Char(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_SByte(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Byte(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Int16(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_UInt16(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Int32(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_UInt32(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Int64(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_UInt64(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Single(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_Double(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_UInt64_String(Int32 v) { UInt64Value b_x((UInt64) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Char(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Single_Char(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_SByte(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Byte(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Int16(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_UInt16(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Int32(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_UInt32(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Int64(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_UInt64(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Single(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_Double(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Single_String(Int32 v) { SingleValue b_x((Single) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Char(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_Double_Char(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_SByte(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Byte(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Int16(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_UInt16(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Int32(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_UInt32(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Int64(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_UInt64(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Single(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_Double(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_Double_String(Int32 v) { DoubleValue b_x((Double) (v)); Object* x = &b_x; String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Char(Int32 v) { String* x = new String((Char) (v + 48), 1); CharValue b_y((Char) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same1_String_Char(Int32 v) { String* x = new String((Char) (v + 48), 1); CharValue b_y((Char) (v + 48)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_SByte(Int32 v) { String* x = new String((Char) (v + 48), 1); SByteValue b_y((SByte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Byte(Int32 v) { String* x = new String((Char) (v + 48), 1); ByteValue b_y((Byte) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Int16(Int32 v) { String* x = new String((Char) (v + 48), 1); Int16Value b_y((Int16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_UInt16(Int32 v) { String* x = new String((Char) (v + 48), 1); UInt16Value b_y((UInt16) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Int32(Int32 v) { String* x = new String((Char) (v + 48), 1); Int32Value b_y((Int32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_UInt32(Int32 v) { String* x = new String((Char) (v + 48), 1); UInt32Value b_y((UInt32) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Int64(Int32 v) { String* x = new String((Char) (v + 48), 1); Int64Value b_y((Int64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_UInt64(Int32 v) { String* x = new String((Char) (v + 48), 1); UInt64Value b_y((UInt64) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Single(Int32 v) { String* x = new String((Char) (v + 48), 1); SingleValue b_y((Single) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_Double(Int32 v) { String* x = new String((Char) (v + 48), 1); DoubleValue b_y((Double) (v)); Object* y = &b_y; return Object::Equals((Object*) x, (Object*) y); }
	Boolean Same0_String_String(Int32 v) { String* x = new String((Char) (v + 48), 1); String* y = new String((Char) (v + 48), 1); return Object::Equals((Object*) x, (Object*) y); }
}
