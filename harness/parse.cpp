// Written by gen_parse.py. Never executed: analysed together with the library by absint against spec/parse.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	SByte ParseSByte() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return SByteValue::Parse(s); }
	Boolean TrySByte(SByte& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return SByteValue::TryParse(s, r); }
	SByte ParseSByte(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return SByteValue::Parse(s); }
	Boolean TrySByte(SByte& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return SByteValue::TryParse(s, r); }
	SByte ParseSByte(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return SByteValue::Parse(s); }
	Boolean TrySByte(SByte& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return SByteValue::TryParse(s, r); }
	SByte ParseSByte(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return SByteValue::Parse(s); }
	Boolean TrySByte(SByte& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return SByteValue::TryParse(s, r); }
	SByte ParseSByte(Char c0, Char c1, Char c2, Char c3) { Char t[] = { c0, c1, c2, c3, 0 }; String* s = new String(t, 0, 4); return SByteValue::Parse(s); }
	Boolean TrySByte(SByte& r, Char c0, Char c1, Char c2, Char c3) { Char t[] = { c0, c1, c2, c3, 0 }; String* s = new String(t, 0, 4); return SByteValue::TryParse(s, r); }
	SByte ParseSByte(Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return SByteValue::Parse(s); }
	Boolean TrySByte(SByte& r, Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return SByteValue::TryParse(s, r); }
	SByte TextSByte(SByte v) { SByteValue x(v); return SByteValue::Parse(x.ToString()); }
	Byte ParseByte() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return ByteValue::Parse(s); }
	Boolean TryByte(Byte& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return ByteValue::TryParse(s, r); }
	Byte ParseByte(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return ByteValue::Parse(s); }
	Boolean TryByte(Byte& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return ByteValue::TryParse(s, r); }
	Byte ParseByte(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return ByteValue::Parse(s); }
	Boolean TryByte(Byte& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return ByteValue::TryParse(s, r); }
	Byte ParseByte(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return ByteValue::Parse(s); }
	Boolean TryByte(Byte& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return ByteValue::TryParse(s, r); }
	Byte ParseByte(Char c0, Char c1, Char c2, Char c3) { Char t[] = { c0, c1, c2, c3, 0 }; String* s = new String(t, 0, 4); return ByteValue::Parse(s); }
	Boolean TryByte(Byte& r, Char c0, Char c1, Char c2, Char c3) { Char t[] = { c0, c1, c2, c3, 0 }; String* s = new String(t, 0, 4); return ByteValue::TryParse(s, r); }
	Byte ParseByte(Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return ByteValue::Parse(s); }
	Boolean TryByte(Byte& r, Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return ByteValue::TryParse(s, r); }
	Byte TextByte(Byte v) { ByteValue x(v); return ByteValue::Parse(x.ToString()); }
	Int16 ParseInt16() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return Int16Value::TryParse(s, r); }
	Int16 ParseInt16(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return Int16Value::TryParse(s, r); }
	Int16 ParseInt16(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return Int16Value::TryParse(s, r); }
	Int16 ParseInt16(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return Int16Value::TryParse(s, r); }
	Int16 ParseInt16(Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r, Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return Int16Value::TryParse(s, r); }
	Int16 ParseInt16(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Char t[] = { c0, c1, c2, c3, c4, c5, 0 }; String* s = new String(t, 0, 6); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Char t[] = { c0, c1, c2, c3, c4, c5, 0 }; String* s = new String(t, 0, 6); return Int16Value::TryParse(s, r); }
	Int16 ParseInt16(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, 0 }; String* s = new String(t, 0, 7); return Int16Value::Parse(s); }
	Boolean TryInt16(Int16& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, 0 }; String* s = new String(t, 0, 7); return Int16Value::TryParse(s, r); }
	Int16 TextInt16(Int16 v) { Int16Value x(v); return Int16Value::Parse(x.ToString()); }
	UInt16 ParseUInt16() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return UInt16Value::TryParse(s, r); }
	UInt16 ParseUInt16(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return UInt16Value::TryParse(s, r); }
	UInt16 ParseUInt16(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return UInt16Value::TryParse(s, r); }
	UInt16 ParseUInt16(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return UInt16Value::TryParse(s, r); }
	UInt16 ParseUInt16(Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r, Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return UInt16Value::TryParse(s, r); }
	UInt16 ParseUInt16(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Char t[] = { c0, c1, c2, c3, c4, c5, 0 }; String* s = new String(t, 0, 6); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Char t[] = { c0, c1, c2, c3, c4, c5, 0 }; String* s = new String(t, 0, 6); return UInt16Value::TryParse(s, r); }
	UInt16 ParseUInt16(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, 0 }; String* s = new String(t, 0, 7); return UInt16Value::Parse(s); }
	Boolean TryUInt16(UInt16& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, 0 }; String* s = new String(t, 0, 7); return UInt16Value::TryParse(s, r); }
	UInt16 TextUInt16(UInt16 v) { UInt16Value x(v); return UInt16Value::Parse(x.ToString()); }
	Int32 ParseInt32() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return Int32Value::TryParse(s, r); }
	Int32 ParseInt32(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return Int32Value::TryParse(s, r); }
	Int32 ParseInt32(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return Int32Value::TryParse(s, r); }
	Int32 ParseInt32(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return Int32Value::TryParse(s, r); }
	Int32 ParseInt32(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, 0 }; String* s = new String(t, 0, 10); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, 0 }; String* s = new String(t, 0, 10); return Int32Value::TryParse(s, r); }
	Int32 ParseInt32(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, 0 }; String* s = new String(t, 0, 11); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, 0 }; String* s = new String(t, 0, 11); return Int32Value::TryParse(s, r); }
	Int32 ParseInt32(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, 0 }; String* s = new String(t, 0, 12); return Int32Value::Parse(s); }
	Boolean TryInt32(Int32& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, 0 }; String* s = new String(t, 0, 12); return Int32Value::TryParse(s, r); }
	Int32 TextInt32(Int32 v) { Int32Value x(v); return Int32Value::Parse(x.ToString()); }
	UInt32 ParseUInt32() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return UInt32Value::TryParse(s, r); }
	UInt32 ParseUInt32(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return UInt32Value::TryParse(s, r); }
	UInt32 ParseUInt32(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return UInt32Value::TryParse(s, r); }
	UInt32 ParseUInt32(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return UInt32Value::TryParse(s, r); }
	UInt32 ParseUInt32(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, 0 }; String* s = new String(t, 0, 10); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, 0 }; String* s = new String(t, 0, 10); return UInt32Value::TryParse(s, r); }
	UInt32 ParseUInt32(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, 0 }; String* s = new String(t, 0, 11); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, 0 }; String* s = new String(t, 0, 11); return UInt32Value::TryParse(s, r); }
	UInt32 ParseUInt32(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, 0 }; String* s = new String(t, 0, 12); return UInt32Value::Parse(s); }
	Boolean TryUInt32(UInt32& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, 0 }; String* s = new String(t, 0, 12); return UInt32Value::TryParse(s, r); }
	UInt32 TextUInt32(UInt32 v) { UInt32Value x(v); return UInt32Value::Parse(x.ToString()); }
	Int64 ParseInt64() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return Int64Value::TryParse(s, r); }
	Int64 ParseInt64(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return Int64Value::TryParse(s, r); }
	Int64 ParseInt64(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return Int64Value::TryParse(s, r); }
	Int64 ParseInt64(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return Int64Value::TryParse(s, r); }
	Int64 ParseInt64(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, 0 }; String* s = new String(t, 0, 19); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, 0 }; String* s = new String(t, 0, 19); return Int64Value::TryParse(s, r); }
	Int64 ParseInt64(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, 0 }; String* s = new String(t, 0, 20); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, 0 }; String* s = new String(t, 0, 20); return Int64Value::TryParse(s, r); }
	Int64 ParseInt64(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, 0 }; String* s = new String(t, 0, 21); return Int64Value::Parse(s); }
	Boolean TryInt64(Int64& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, 0 }; String* s = new String(t, 0, 21); return Int64Value::TryParse(s, r); }
	Int64 TextInt64(Int64 v) { Int64Value x(v); return Int64Value::Parse(x.ToString()); }
	UInt64 ParseUInt64() { Char t[] = { 0 }; String* s = new String(t, 0, 0); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r) { Char t[] = { 0 }; String* s = new String(t, 0, 0); return UInt64Value::TryParse(s, r); }
	UInt64 ParseUInt64(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return UInt64Value::TryParse(s, r); }
	UInt64 ParseUInt64(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return UInt64Value::TryParse(s, r); }
	UInt64 ParseUInt64(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return UInt64Value::TryParse(s, r); }
	UInt64 ParseUInt64(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, 0 }; String* s = new String(t, 0, 20); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, 0 }; String* s = new String(t, 0, 20); return UInt64Value::TryParse(s, r); }
	UInt64 ParseUInt64(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, 0 }; String* s = new String(t, 0, 21); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, 0 }; String* s = new String(t, 0, 21); return UInt64Value::TryParse(s, r); }
	UInt64 ParseUInt64(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, 0 }; String* s = new String(t, 0, 22); return UInt64Value::Parse(s); }
	Boolean TryUInt64(UInt64& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, 0 }; String* s = new String(t, 0, 22); return UInt64Value::TryParse(s, r); }
	UInt64 TextUInt64(UInt64 v) { UInt64Value x(v); return UInt64Value::Parse(x.ToString()); }
	Char TextChar(Char v) { CharValue x(v); return CharValue::Parse(x.ToString()); }
	Double ParseDouble() { String* s = new String(L' ', 0); return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r) { String* s = new String(L' ', 0); return DoubleValue::TryParse(s, r); }
	Single ParseSingle() { String* s = new String(L' ', 0); return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r) { String* s = new String(L' ', 0); return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4) { String* s = new String(L' ', 5); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4) { String* s = new String(L' ', 5); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4) { String* s = new String(L' ', 5); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4) { String* s = new String(L' ', 5); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { String* s = new String(L' ', 6); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { String* s = new String(L' ', 6); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { String* s = new String(L' ', 6); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { String* s = new String(L' ', 6); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { String* s = new String(L' ', 7); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { String* s = new String(L' ', 7); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { String* s = new String(L' ', 7); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { String* s = new String(L' ', 7); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { String* s = new String(L' ', 8); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { String* s = new String(L' ', 8); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { String* s = new String(L' ', 8); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { String* s = new String(L' ', 8); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { String* s = new String(L' ', 9); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { String* s = new String(L' ', 9); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { String* s = new String(L' ', 9); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { String* s = new String(L' ', 9); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { String* s = new String(L' ', 10); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { String* s = new String(L' ', 10); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { String* s = new String(L' ', 10); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { String* s = new String(L' ', 10); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { String* s = new String(L' ', 11); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { String* s = new String(L' ', 11); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { String* s = new String(L' ', 11); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { String* s = new String(L' ', 11); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { String* s = new String(L' ', 12); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { String* s = new String(L' ', 12); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { String* s = new String(L' ', 12); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { String* s = new String(L' ', 12); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; return SingleValue::TryParse(s, r); }
	Double ParseDouble(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12) { String* s = new String(L' ', 13); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; *s->Address(12) = c12; return DoubleValue::Parse(s); }
	Boolean TryDouble(Double& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12) { String* s = new String(L' ', 13); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; *s->Address(12) = c12; return DoubleValue::TryParse(s, r); }
	Single ParseSingle(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12) { String* s = new String(L' ', 13); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; *s->Address(12) = c12; return SingleValue::Parse(s); }
	Boolean TrySingle(Single& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12) { String* s = new String(L' ', 13); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; *s->Address(9) = c9; *s->Address(10) = c10; *s->Address(11) = c11; *s->Address(12) = c12; return SingleValue::TryParse(s, r); }
	Boolean ParseBoolean() { String* s = new String(L' ', 0); return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2, Char c3, Char c4) { String* s = new String(L' ', 5); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { String* s = new String(L' ', 6); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { String* s = new String(L' ', 7); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { String* s = new String(L' ', 8); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; return BooleanValue::Parse(s); }
	Boolean ParseBoolean(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { String* s = new String(L' ', 9); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; *s->Address(6) = c6; *s->Address(7) = c7; *s->Address(8) = c8; return BooleanValue::Parse(s); }
	TimeSpan ParseTimeSpan(Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0) { Char t[] = { c0, 0 }; String* s = new String(t, 0, 1); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1) { Char t[] = { c0, c1, 0 }; String* s = new String(t, 0, 2); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2) { Char t[] = { c0, c1, c2, 0 }; String* s = new String(t, 0, 3); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3) { Char t[] = { c0, c1, c2, c3, 0 }; String* s = new String(t, 0, 4); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3) { Char t[] = { c0, c1, c2, c3, 0 }; String* s = new String(t, 0, 4); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4) { Char t[] = { c0, c1, c2, c3, c4, 0 }; String* s = new String(t, 0, 5); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Char t[] = { c0, c1, c2, c3, c4, c5, 0 }; String* s = new String(t, 0, 6); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Char t[] = { c0, c1, c2, c3, c4, c5, 0 }; String* s = new String(t, 0, 6); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, 0 }; String* s = new String(t, 0, 7); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, 0 }; String* s = new String(t, 0, 7); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, 0 }; String* s = new String(t, 0, 8); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, 0 }; String* s = new String(t, 0, 8); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, 0 }; String* s = new String(t, 0, 9); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, 0 }; String* s = new String(t, 0, 9); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, 0 }; String* s = new String(t, 0, 10); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, 0 }; String* s = new String(t, 0, 10); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, 0 }; String* s = new String(t, 0, 11); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, 0 }; String* s = new String(t, 0, 11); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, 0 }; String* s = new String(t, 0, 12); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, 0 }; String* s = new String(t, 0, 12); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, 0 }; String* s = new String(t, 0, 13); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, 0 }; String* s = new String(t, 0, 13); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, 0 }; String* s = new String(t, 0, 14); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, 0 }; String* s = new String(t, 0, 14); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, 0 }; String* s = new String(t, 0, 15); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, 0 }; String* s = new String(t, 0, 15); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, 0 }; String* s = new String(t, 0, 16); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, 0 }; String* s = new String(t, 0, 16); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, 0 }; String* s = new String(t, 0, 17); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, 0 }; String* s = new String(t, 0, 17); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, 0 }; String* s = new String(t, 0, 18); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, 0 }; String* s = new String(t, 0, 18); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, 0 }; String* s = new String(t, 0, 19); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, 0 }; String* s = new String(t, 0, 19); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, 0 }; String* s = new String(t, 0, 20); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, 0 }; String* s = new String(t, 0, 20); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, 0 }; String* s = new String(t, 0, 21); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, 0 }; String* s = new String(t, 0, 21); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, 0 }; String* s = new String(t, 0, 22); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, 0 }; String* s = new String(t, 0, 22); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, 0 }; String* s = new String(t, 0, 23); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, 0 }; String* s = new String(t, 0, 23); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22, Char c23) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, 0 }; String* s = new String(t, 0, 24); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22, Char c23) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, 0 }; String* s = new String(t, 0, 24); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22, Char c23, Char c24) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, 0 }; String* s = new String(t, 0, 25); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22, Char c23, Char c24) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, 0 }; String* s = new String(t, 0, 25); return TimeSpanValue::TryParse(s, r); }
	TimeSpan ParseTimeSpan(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22, Char c23, Char c24, Char c25) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, 0 }; String* s = new String(t, 0, 26); return TimeSpanValue::Parse(s); }
	Boolean TryTimeSpan(TimeSpan& r, Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char c12, Char c13, Char c14, Char c15, Char c16, Char c17, Char c18, Char c19, Char c20, Char c21, Char c22, Char c23, Char c24, Char c25) { Char t[] = { c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, 0 }; String* s = new String(t, 0, 26); return TimeSpanValue::TryParse(s, r); }
	TimeSpan TextTimeSpan(TimeSpan v) { TimeSpanValue x(v); return TimeSpanValue::Parse(x.ToString()); }
}
