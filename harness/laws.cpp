// Compositions of library operations whose result is fixed by law, whatever the operations do inside.
// Never executed: analysed together with the library by absint against spec/laws.spec.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	Int16 RoundTripInt16(Int16 v) { return BitConverter::ToInt16(BitConverter::GetBytes(v), 0); }
	UInt16 RoundTripUInt16(UInt16 v) { return BitConverter::ToUInt16(BitConverter::GetBytes(v), 0); }
	Int32 RoundTripInt32(Int32 v) { return BitConverter::ToInt32(BitConverter::GetBytes(v), 0); }
	UInt32 RoundTripUInt32(UInt32 v) { return BitConverter::ToUInt32(BitConverter::GetBytes(v), 0); }
	Int64 RoundTripInt64(Int64 v) { return BitConverter::ToInt64(BitConverter::GetBytes(v), 0); }
	UInt64 RoundTripUInt64(UInt64 v) { return BitConverter::ToUInt64(BitConverter::GetBytes(v), 0); }
	Double RoundTripDouble(Double v) { return BitConverter::ToDouble(BitConverter::GetBytes(v), 0); }
	Single RoundTripSingle(Single v) { return BitConverter::ToSingle(BitConverter::GetBytes(v), 0); }
	Boolean RoundTripBoolean(Boolean v) { return BitConverter::ToBoolean(BitConverter::GetBytes(v), 0); }
	Char RoundTripChar(Char v) { return BitConverter::ToChar(BitConverter::GetBytes(v), 0); }
	Int64 RoundTripBits(Int64 v) { return BitConverter::DoubleToInt64Bits(BitConverter::Int64BitsToDouble(v)); }
	Double RoundTripBitsDouble(Double v) { return BitConverter::Int64BitsToDouble(BitConverter::DoubleToInt64Bits(v)); }
	Int32 ByteCountInt16(Int16 v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountUInt16(UInt16 v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountInt32(Int32 v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountUInt32(UInt32 v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountInt64(Int64 v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountUInt64(UInt64 v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountDouble(Double v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountSingle(Single v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountChar(Char v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteCountBoolean(Boolean v) { return BitConverter::GetBytes(v)->get_Length(); }
	Int32 ByteOrderInt16(Int16 v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderUInt16(UInt16 v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderInt32(Int32 v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderUInt32(UInt32 v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderInt64(Int64 v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderUInt64(UInt64 v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderChar(Char v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	Int32 ByteOrderBoolean(Boolean v, Int32 i) { return *(Byte*) BitConverter::GetBytes(v)->Address(i); }
	static Array* Bytes(Byte b0, Byte b1, Byte b2, Byte b3) {
		Array* a = new Array(ByteType, 4);
		*(Byte*) a->Address(0) = b0;
		*(Byte*) a->Address(1) = b1;
		*(Byte*) a->Address(2) = b2;
		*(Byte*) a->Address(3) = b3;
		return a;
	}
	Int16 ByteOrderToInt16(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start) { return BitConverter::ToInt16(Bytes(b0, b1, b2, b3), start); }
	UInt16 ByteOrderToUInt16(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start) { return BitConverter::ToUInt16(Bytes(b0, b1, b2, b3), start); }
	Char ByteOrderToChar(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start) { return BitConverter::ToChar(Bytes(b0, b1, b2, b3), start); }
	Int32 ByteOrderToInt32(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start) { return BitConverter::ToInt32(Bytes(b0, b1, b2, b3), start); }
	UInt32 ByteOrderToUInt32(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start) { return BitConverter::ToUInt32(Bytes(b0, b1, b2, b3), start); }
	Boolean ByteOrderToBoolean(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start) { return BitConverter::ToBoolean(Bytes(b0, b1, b2, b3), start); }
	String* HexText(Byte b0, Byte b1, Byte b2, Byte b3, Int32 start, Int32 length) { return BitConverter::ToString(Bytes(b0, b1, b2, b3), start, length); }
}
