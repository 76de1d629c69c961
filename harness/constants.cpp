// Written by gen_const.py. Never executed: analysed together with the library by absint against spec/constants.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	SByte ConstSByteMax() { return SByteValue::MaxValue; }
	SByte ConstSByteMin() { return SByteValue::MinValue; }
	Byte ConstByteMax() { return ByteValue::MaxValue; }
	Byte ConstByteMin() { return ByteValue::MinValue; }
	Int16 ConstInt16Max() { return Int16Value::MaxValue; }
	Int16 ConstInt16Min() { return Int16Value::MinValue; }
	UInt16 ConstUInt16Max() { return UInt16Value::MaxValue; }
	UInt16 ConstUInt16Min() { return UInt16Value::MinValue; }
	Int32 ConstInt32Max() { return Int32Value::MaxValue; }
	Int32 ConstInt32Min() { return Int32Value::MinValue; }
	UInt32 ConstUInt32Max() { return UInt32Value::MaxValue; }
	UInt32 ConstUInt32Min() { return UInt32Value::MinValue; }
	Int64 ConstInt64Max() { return Int64Value::MaxValue; }
	Int64 ConstInt64Min() { return Int64Value::MinValue; }
	UInt64 ConstUInt64Max() { return UInt64Value::MaxValue; }
	UInt64 ConstUInt64Min() { return UInt64Value::MinValue; }
	Char ConstCharMax() { return CharValue::MaxValue; }
	Char ConstCharMin() { return CharValue::MinValue; }
	Double ConstDoubleMaxValue() { return DoubleValue::MaxValue; }
	Double ConstDoubleMinValue() { return DoubleValue::MinValue; }
	Double ConstDoubleEpsilon() { return DoubleValue::Epsilon; }
	Double ConstDoublePositiveInfinity() { return DoubleValue::PositiveInfinity; }
	Double ConstDoubleNegativeInfinity() { return DoubleValue::NegativeInfinity; }
	Double ConstDoubleNaN() { return DoubleValue::NaN; }
	Single ConstSingleMaxValue() { return SingleValue::MaxValue; }
	Single ConstSingleMinValue() { return SingleValue::MinValue; }
	Single ConstSingleEpsilon() { return SingleValue::Epsilon; }
	Single ConstSinglePositiveInfinity() { return SingleValue::PositiveInfinity; }
	Single ConstSingleNegativeInfinity() { return SingleValue::NegativeInfinity; }
	Single ConstSingleNaN() { return SingleValue::NaN; }
	Double ConstMathPI() { return Math::PI; }
	Double ConstMathE() { return Math::E; }
	Int64 ConstDateTimeMax() { return DateTimeValue(DateTimeValue::MaxValue).get_Ticks(); }
	Int64 ConstDateTimeMin() { return DateTimeValue(DateTimeValue::MinValue).get_Ticks(); }
	Int64 ConstTimeSpanMax() { return TimeSpanValue(TimeSpanValue::MaxValue).get_Ticks(); }
	Int64 ConstTimeSpanMin() { return TimeSpanValue(TimeSpanValue::MinValue).get_Ticks(); }
	Int64 ConstTimeSpanZero() { return TimeSpanValue(TimeSpanValue::Zero).get_Ticks(); }
	Int64 ConstTicksPerMillisecond() { return TimeSpanValue::TicksPerMillisecond; }
	Int64 ConstTicksPerSecond() { return TimeSpanValue::TicksPerSecond; }
	Int64 ConstTicksPerMinute() { return TimeSpanValue::TicksPerMinute; }
	Int64 ConstTicksPerHour() { return TimeSpanValue::TicksPerHour; }
	Int64 ConstTicksPerDay() { return TimeSpanValue::TicksPerDay; }
	String* ConstStringEmpty() { return String::Empty; }
	String* ConstTrueString() { return BooleanValue::TrueString; }
	String* ConstFalseString() { return BooleanValue::FalseString; }
	Boolean ConstLittleEndian() { return BitConverter::IsLittleEndian; }
}
