# Boxed numbers: ordering, equality and type codes (generated by tools/mkboxed.py)
fn SByteValue::CompareTo(signed char)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn SByteValue::Equals(signed char)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn SByteValue::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa SByteValue, this.value < $1.value => returns, ret < 0
if $1 isa SByteValue, this.value > $1.value => returns, ret > 0
if $1 isa SByteValue, this.value == $1.value => returns, ret == 0
fn SByteValue::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa SByteValue, this.value != $1.value => returns, ret == 0
if $1 isa SByteValue, this.value == $1.value => returns, ret == 1
fn ByteValue::CompareTo(unsigned char)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn ByteValue::Equals(unsigned char)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn ByteValue::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa ByteValue, this.value < $1.value => returns, ret < 0
if $1 isa ByteValue, this.value > $1.value => returns, ret > 0
if $1 isa ByteValue, this.value == $1.value => returns, ret == 0
fn ByteValue::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa ByteValue, this.value != $1.value => returns, ret == 0
if $1 isa ByteValue, this.value == $1.value => returns, ret == 1
fn Int16Value::CompareTo(short)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn Int16Value::Equals(short)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn Int16Value::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa Int16Value, this.value < $1.value => returns, ret < 0
if $1 isa Int16Value, this.value > $1.value => returns, ret > 0
if $1 isa Int16Value, this.value == $1.value => returns, ret == 0
fn Int16Value::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa Int16Value, this.value != $1.value => returns, ret == 0
if $1 isa Int16Value, this.value == $1.value => returns, ret == 1
fn UInt16Value::CompareTo(unsigned short)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn UInt16Value::Equals(unsigned short)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn UInt16Value::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa UInt16Value, this.value < $1.value => returns, ret < 0
if $1 isa UInt16Value, this.value > $1.value => returns, ret > 0
if $1 isa UInt16Value, this.value == $1.value => returns, ret == 0
fn UInt16Value::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa UInt16Value, this.value != $1.value => returns, ret == 0
if $1 isa UInt16Value, this.value == $1.value => returns, ret == 1
fn Int32Value::CompareTo(int)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn Int32Value::Equals(int)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn Int32Value::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa Int32Value, this.value < $1.value => returns, ret < 0
if $1 isa Int32Value, this.value > $1.value => returns, ret > 0
if $1 isa Int32Value, this.value == $1.value => returns, ret == 0
fn Int32Value::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa Int32Value, this.value != $1.value => returns, ret == 0
if $1 isa Int32Value, this.value == $1.value => returns, ret == 1
fn UInt32Value::CompareTo(unsigned int)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn UInt32Value::Equals(unsigned int)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn UInt32Value::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa UInt32Value, this.value < $1.value => returns, ret < 0
if $1 isa UInt32Value, this.value > $1.value => returns, ret > 0
if $1 isa UInt32Value, this.value == $1.value => returns, ret == 0
fn UInt32Value::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa UInt32Value, this.value != $1.value => returns, ret == 0
if $1 isa UInt32Value, this.value == $1.value => returns, ret == 1
fn Int64Value::CompareTo(long)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn Int64Value::Equals(long)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn Int64Value::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa Int64Value, this.value < $1.value => returns, ret < 0
if $1 isa Int64Value, this.value > $1.value => returns, ret > 0
if $1 isa Int64Value, this.value == $1.value => returns, ret == 0
fn Int64Value::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa Int64Value, this.value != $1.value => returns, ret == 0
if $1 isa Int64Value, this.value == $1.value => returns, ret == 1
fn UInt64Value::CompareTo(unsigned long)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn UInt64Value::Equals(unsigned long)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn UInt64Value::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa UInt64Value, this.value < $1.value => returns, ret < 0
if $1 isa UInt64Value, this.value > $1.value => returns, ret > 0
if $1 isa UInt64Value, this.value == $1.value => returns, ret == 0
fn UInt64Value::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa UInt64Value, this.value != $1.value => returns, ret == 0
if $1 isa UInt64Value, this.value == $1.value => returns, ret == 1
fn CharValue::CompareTo(wchar_t)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn CharValue::Equals(wchar_t)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn CharValue::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa CharValue, this.value < $1.value => returns, ret < 0
if $1 isa CharValue, this.value > $1.value => returns, ret > 0
if $1 isa CharValue, this.value == $1.value => returns, ret == 0
fn CharValue::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa CharValue, this.value != $1.value => returns, ret == 0
if $1 isa CharValue, this.value == $1.value => returns, ret == 1
fn BooleanValue::CompareTo(bool)
if this.value < $1 => returns, ret < 0
if this.value > $1 => returns, ret > 0
if this.value == $1 => returns, ret == 0
fn BooleanValue::Equals(bool)
if this.value != $1 => returns, ret == 0
if this.value == $1 => returns, ret == 1
fn BooleanValue::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa BooleanValue, this.value < $1.value => returns, ret < 0
if $1 isa BooleanValue, this.value > $1.value => returns, ret > 0
if $1 isa BooleanValue, this.value == $1.value => returns, ret == 0
fn BooleanValue::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa BooleanValue, this.value != $1.value => returns, ret == 0
if $1 isa BooleanValue, this.value == $1.value => returns, ret == 1
fn SingleValue::CompareTo(float)
if this.value is nan, $1 is nan => returns, ret == 0
if this.value is nan, $1 is not nan => returns, ret < 0
if this.value is not nan, $1 is nan => returns, ret > 0
if this.value is not nan, $1 is not nan, this.value < $1 => returns, ret < 0
if this.value is not nan, $1 is not nan, this.value > $1 => returns, ret > 0
if this.value is not nan, $1 is not nan, this.value == $1 => returns, ret == 0
fn SingleValue::Equals(float)
if this.value is nan, $1 is nan => returns, ret == 1
if this.value is nan, $1 is not nan => returns, ret == 0
if this.value is not nan, $1 is nan => returns, ret == 0
if this.value is not nan, $1 is not nan, this.value != $1 => returns, ret == 0
if this.value is not nan, $1 is not nan, this.value == $1 => returns, ret == 1
fn SingleValue::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa DoubleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa SingleValue, this.value is nan, $1.value is nan => returns, ret == 0
if $1 isa SingleValue, this.value is nan, $1.value is not nan => returns, ret < 0
if $1 isa SingleValue, this.value is not nan, $1.value is nan => returns, ret > 0
if $1 isa SingleValue, this.value is not nan, $1.value is not nan, this.value < $1.value => returns, ret < 0
if $1 isa SingleValue, this.value is not nan, $1.value is not nan, this.value > $1.value => returns, ret > 0
if $1 isa SingleValue, this.value is not nan, $1.value is not nan, this.value == $1.value => returns, ret == 0
fn SingleValue::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa DoubleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa SingleValue, this.value is nan, $1.value is nan => returns, ret == 1
if $1 isa SingleValue, this.value is nan, $1.value is not nan => returns, ret == 0
if $1 isa SingleValue, this.value is not nan, $1.value is nan => returns, ret == 0
if $1 isa SingleValue, this.value is not nan, $1.value is not nan, this.value != $1.value => returns, ret == 0
if $1 isa SingleValue, this.value is not nan, $1.value is not nan, this.value == $1.value => returns, ret == 1
fn DoubleValue::CompareTo(double)
if this.value is nan, $1 is nan => returns, ret == 0
if this.value is nan, $1 is not nan => returns, ret < 0
if this.value is not nan, $1 is nan => returns, ret > 0
if this.value is not nan, $1 is not nan, this.value < $1 => returns, ret < 0
if this.value is not nan, $1 is not nan, this.value > $1 => returns, ret > 0
if this.value is not nan, $1 is not nan, this.value == $1 => returns, ret == 0
fn DoubleValue::Equals(double)
if this.value is nan, $1 is nan => returns, ret == 1
if this.value is nan, $1 is not nan => returns, ret == 0
if this.value is not nan, $1 is nan => returns, ret == 0
if this.value is not nan, $1 is not nan, this.value != $1 => returns, ret == 0
if this.value is not nan, $1 is not nan, this.value == $1 => returns, ret == 1
fn DoubleValue::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa BooleanValue => throws ArgumentException
if $1 isa CharValue => throws ArgumentException
if $1 isa SByteValue => throws ArgumentException
if $1 isa ByteValue => throws ArgumentException
if $1 isa Int16Value => throws ArgumentException
if $1 isa UInt16Value => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa UInt32Value => throws ArgumentException
if $1 isa Int64Value => throws ArgumentException
if $1 isa UInt64Value => throws ArgumentException
if $1 isa SingleValue => throws ArgumentException
if $1 isa String => throws ArgumentException
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Array => throws ArgumentException
if $1 isa DateTimeValue => throws ArgumentException
if $1 isa TimeSpanValue => throws ArgumentException
if $1 isa DoubleValue, this.value is nan, $1.value is nan => returns, ret == 0
if $1 isa DoubleValue, this.value is nan, $1.value is not nan => returns, ret < 0
if $1 isa DoubleValue, this.value is not nan, $1.value is nan => returns, ret > 0
if $1 isa DoubleValue, this.value is not nan, $1.value is not nan, this.value < $1.value => returns, ret < 0
if $1 isa DoubleValue, this.value is not nan, $1.value is not nan, this.value > $1.value => returns, ret > 0
if $1 isa DoubleValue, this.value is not nan, $1.value is not nan, this.value == $1.value => returns, ret == 0
fn DoubleValue::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa BooleanValue => returns, ret == 0
if $1 isa CharValue => returns, ret == 0
if $1 isa SByteValue => returns, ret == 0
if $1 isa ByteValue => returns, ret == 0
if $1 isa Int16Value => returns, ret == 0
if $1 isa UInt16Value => returns, ret == 0
if $1 isa Int32Value => returns, ret == 0
if $1 isa UInt32Value => returns, ret == 0
if $1 isa Int64Value => returns, ret == 0
if $1 isa UInt64Value => returns, ret == 0
if $1 isa SingleValue => returns, ret == 0
if $1 isa String => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa DateTimeValue => returns, ret == 0
if $1 isa TimeSpanValue => returns, ret == 0
if $1 isa DoubleValue, this.value is nan, $1.value is nan => returns, ret == 1
if $1 isa DoubleValue, this.value is nan, $1.value is not nan => returns, ret == 0
if $1 isa DoubleValue, this.value is not nan, $1.value is nan => returns, ret == 0
if $1 isa DoubleValue, this.value is not nan, $1.value is not nan, this.value != $1.value => returns, ret == 0
if $1 isa DoubleValue, this.value is not nan, $1.value is not nan, this.value == $1.value => returns, ret == 1
