# Boxed numbers: what conversion yields (generated by tools/mkboxed.py)
fn SByteValue::SByteValue(signed char)
always => returns, this'.value == $1
fn SByteValue::GetRawDataType()
always => returns, ret == 4
fn SByteValue::get_AsSByte()
always => returns, ret == this.value
fn SByteValue::get_AsByte()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value < 0 => returns, ret == this.value + 256
fn SByteValue::get_AsInt16()
always => returns, ret == this.value
fn SByteValue::get_AsUInt16()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value < 0 => returns, ret == this.value + 65536
fn SByteValue::get_AsInt32()
always => returns, ret == this.value
fn SByteValue::get_AsUInt32()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 4294967295
if this.value < 0 => returns, ret == this.value + 4294967296
fn SByteValue::get_AsInt64()
always => returns, ret == this.value
fn SByteValue::get_AsUInt64()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 18446744073709551615
if this.value < 0 => returns, ret == this.value + 18446744073709551616
fn SByteValue::get_AsChar()
always => returns, ret == this.value
fn SByteValue::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn SByteValue::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn SByteValue::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
if this.value < 0 => returns, ret == 1
fn ByteValue::ByteValue(unsigned char)
always => returns, this'.value == $1
fn ByteValue::GetRawDataType()
always => returns, ret == 5
fn ByteValue::get_AsSByte()
if this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 255 => returns, ret == this.value - 256
fn ByteValue::get_AsByte()
always => returns, ret == this.value
fn ByteValue::get_AsInt16()
always => returns, ret == this.value
fn ByteValue::get_AsUInt16()
always => returns, ret == this.value
fn ByteValue::get_AsInt32()
always => returns, ret == this.value
fn ByteValue::get_AsUInt32()
always => returns, ret == this.value
fn ByteValue::get_AsInt64()
always => returns, ret == this.value
fn ByteValue::get_AsUInt64()
always => returns, ret == this.value
fn ByteValue::get_AsChar()
always => returns, ret == this.value
fn ByteValue::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn ByteValue::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn ByteValue::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
fn Int16Value::Int16Value(short)
always => returns, this'.value == $1
fn Int16Value::GetRawDataType()
always => returns, ret == 6
fn Int16Value::get_AsSByte()
if this.value >= 0 - 128, this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
if this.value < 0 - 128, this.value >= 0 - 384 => returns, ret == this.value + 256
fn Int16Value::get_AsByte()
if this.value >= 0, this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
if this.value < 0, this.value >= 0 - 256 => returns, ret == this.value + 256
fn Int16Value::get_AsInt16()
always => returns, ret == this.value
fn Int16Value::get_AsUInt16()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value < 0 => returns, ret == this.value + 65536
fn Int16Value::get_AsInt32()
always => returns, ret == this.value
fn Int16Value::get_AsUInt32()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 4294967295
if this.value < 0 => returns, ret == this.value + 4294967296
fn Int16Value::get_AsInt64()
always => returns, ret == this.value
fn Int16Value::get_AsUInt64()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 18446744073709551615
if this.value < 0 => returns, ret == this.value + 18446744073709551616
fn Int16Value::get_AsChar()
always => returns, ret == this.value
fn Int16Value::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn Int16Value::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn Int16Value::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
if this.value < 0 => returns, ret == 1
fn UInt16Value::UInt16Value(unsigned short)
always => returns, this'.value == $1
fn UInt16Value::GetRawDataType()
always => returns, ret == 7
fn UInt16Value::get_AsSByte()
if this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
fn UInt16Value::get_AsByte()
if this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
fn UInt16Value::get_AsInt16()
if this.value <= 32767 => returns, ret == this.value
always => returns, ret >= 0 - 32768, ret <= 32767
if this.value > 32767, this.value <= 65535 => returns, ret == this.value - 65536
fn UInt16Value::get_AsUInt16()
always => returns, ret == this.value
fn UInt16Value::get_AsInt32()
always => returns, ret == this.value
fn UInt16Value::get_AsUInt32()
always => returns, ret == this.value
fn UInt16Value::get_AsInt64()
always => returns, ret == this.value
fn UInt16Value::get_AsUInt64()
always => returns, ret == this.value
fn UInt16Value::get_AsChar()
always => returns, ret == this.value
fn UInt16Value::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn UInt16Value::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn UInt16Value::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
fn Int32Value::Int32Value(int)
always => returns, this'.value == $1
fn Int32Value::GetRawDataType()
always => returns, ret == 8
fn Int32Value::get_AsSByte()
if this.value >= 0 - 128, this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
if this.value < 0 - 128, this.value >= 0 - 384 => returns, ret == this.value + 256
fn Int32Value::get_AsByte()
if this.value >= 0, this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
if this.value < 0, this.value >= 0 - 256 => returns, ret == this.value + 256
fn Int32Value::get_AsInt16()
if this.value >= 0 - 32768, this.value <= 32767 => returns, ret == this.value
always => returns, ret >= 0 - 32768, ret <= 32767
if this.value > 32767, this.value <= 98303 => returns, ret == this.value - 65536
if this.value < 0 - 32768, this.value >= 0 - 98304 => returns, ret == this.value + 65536
fn Int32Value::get_AsUInt16()
if this.value >= 0, this.value <= 65535 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value > 65535, this.value <= 131071 => returns, ret == this.value - 65536
if this.value < 0, this.value >= 0 - 65536 => returns, ret == this.value + 65536
fn Int32Value::get_AsInt32()
always => returns, ret == this.value
fn Int32Value::get_AsUInt32()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 4294967295
if this.value < 0 => returns, ret == this.value + 4294967296
fn Int32Value::get_AsInt64()
always => returns, ret == this.value
fn Int32Value::get_AsUInt64()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 18446744073709551615
if this.value < 0 => returns, ret == this.value + 18446744073709551616
fn Int32Value::get_AsChar()
always => returns, ret == this.value
fn Int32Value::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn Int32Value::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn Int32Value::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
if this.value < 0 => returns, ret == 1
fn UInt32Value::UInt32Value(unsigned int)
always => returns, this'.value == $1
fn UInt32Value::GetRawDataType()
always => returns, ret == 9
fn UInt32Value::get_AsSByte()
if this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
fn UInt32Value::get_AsByte()
if this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
fn UInt32Value::get_AsInt16()
if this.value <= 32767 => returns, ret == this.value
always => returns, ret >= 0 - 32768, ret <= 32767
if this.value > 32767, this.value <= 98303 => returns, ret == this.value - 65536
fn UInt32Value::get_AsUInt16()
if this.value <= 65535 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value > 65535, this.value <= 131071 => returns, ret == this.value - 65536
fn UInt32Value::get_AsInt32()
if this.value <= 2147483647 => returns, ret == this.value
always => returns, ret >= 0 - 2147483648, ret <= 2147483647
if this.value > 2147483647, this.value <= 4294967295 => returns, ret == this.value - 4294967296
fn UInt32Value::get_AsUInt32()
always => returns, ret == this.value
fn UInt32Value::get_AsInt64()
always => returns, ret == this.value
fn UInt32Value::get_AsUInt64()
always => returns, ret == this.value
fn UInt32Value::get_AsChar()
if this.value <= 2147483647 => returns, ret == this.value
always => returns, ret >= 0 - 2147483648, ret <= 2147483647
if this.value > 2147483647, this.value <= 4294967295 => returns, ret == this.value - 4294967296
fn UInt32Value::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn UInt32Value::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn UInt32Value::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
fn Int64Value::Int64Value(long)
always => returns, this'.value == $1
fn Int64Value::GetRawDataType()
always => returns, ret == 10
fn Int64Value::get_AsSByte()
if this.value >= 0 - 128, this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
if this.value < 0 - 128, this.value >= 0 - 384 => returns, ret == this.value + 256
fn Int64Value::get_AsByte()
if this.value >= 0, this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
if this.value < 0, this.value >= 0 - 256 => returns, ret == this.value + 256
fn Int64Value::get_AsInt16()
if this.value >= 0 - 32768, this.value <= 32767 => returns, ret == this.value
always => returns, ret >= 0 - 32768, ret <= 32767
if this.value > 32767, this.value <= 98303 => returns, ret == this.value - 65536
if this.value < 0 - 32768, this.value >= 0 - 98304 => returns, ret == this.value + 65536
fn Int64Value::get_AsUInt16()
if this.value >= 0, this.value <= 65535 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value > 65535, this.value <= 131071 => returns, ret == this.value - 65536
if this.value < 0, this.value >= 0 - 65536 => returns, ret == this.value + 65536
fn Int64Value::get_AsInt32()
if this.value >= 0 - 2147483648, this.value <= 2147483647 => returns, ret == this.value
always => returns, ret >= 0 - 2147483648, ret <= 2147483647
if this.value > 2147483647, this.value <= 6442450943 => returns, ret == this.value - 4294967296
if this.value < 0 - 2147483648, this.value >= 0 - 6442450944 => returns, ret == this.value + 4294967296
fn Int64Value::get_AsUInt32()
if this.value >= 0, this.value <= 4294967295 => returns, ret == this.value
always => returns, ret >= 0, ret <= 4294967295
if this.value > 4294967295, this.value <= 8589934591 => returns, ret == this.value - 4294967296
if this.value < 0, this.value >= 0 - 4294967296 => returns, ret == this.value + 4294967296
fn Int64Value::get_AsInt64()
always => returns, ret == this.value
fn Int64Value::get_AsUInt64()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 18446744073709551615
if this.value < 0 => returns, ret == this.value + 18446744073709551616
fn Int64Value::get_AsChar()
if this.value >= 0 - 2147483648, this.value <= 2147483647 => returns, ret == this.value
always => returns, ret >= 0 - 2147483648, ret <= 2147483647
if this.value > 2147483647, this.value <= 6442450943 => returns, ret == this.value - 4294967296
if this.value < 0 - 2147483648, this.value >= 0 - 6442450944 => returns, ret == this.value + 4294967296
fn Int64Value::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn Int64Value::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
if this.value < 0 => returns, ret < 0.0
fn Int64Value::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
if this.value < 0 => returns, ret == 1
fn UInt64Value::UInt64Value(unsigned long)
always => returns, this'.value == $1
fn UInt64Value::GetRawDataType()
always => returns, ret == 11
fn UInt64Value::get_AsSByte()
if this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
fn UInt64Value::get_AsByte()
if this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
fn UInt64Value::get_AsInt16()
if this.value <= 32767 => returns, ret == this.value
always => returns, ret >= 0 - 32768, ret <= 32767
if this.value > 32767, this.value <= 98303 => returns, ret == this.value - 65536
fn UInt64Value::get_AsUInt16()
if this.value <= 65535 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value > 65535, this.value <= 131071 => returns, ret == this.value - 65536
fn UInt64Value::get_AsInt32()
if this.value <= 2147483647 => returns, ret == this.value
always => returns, ret >= 0 - 2147483648, ret <= 2147483647
if this.value > 2147483647, this.value <= 6442450943 => returns, ret == this.value - 4294967296
fn UInt64Value::get_AsUInt32()
if this.value <= 4294967295 => returns, ret == this.value
always => returns, ret >= 0, ret <= 4294967295
if this.value > 4294967295, this.value <= 8589934591 => returns, ret == this.value - 4294967296
fn UInt64Value::get_AsInt64()
if this.value <= 9223372036854775807 => returns, ret == this.value
always => returns, ret >= 0 - 9223372036854775808, ret <= 9223372036854775807
if this.value > 9223372036854775807, this.value <= 18446744073709551615 => returns, ret == this.value - 18446744073709551616
fn UInt64Value::get_AsUInt64()
always => returns, ret == this.value
fn UInt64Value::get_AsChar()
if this.value <= 2147483647 => returns, ret == this.value
always => returns, ret >= 0 - 2147483648, ret <= 2147483647
if this.value > 2147483647, this.value <= 6442450943 => returns, ret == this.value - 4294967296
fn UInt64Value::get_AsSingle()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn UInt64Value::get_AsDouble()
if this.value == 0 => returns, ret == 0.0
if this.value == 7 => returns, ret == 7.0
if this.value > 3 => returns, ret >= 4.0
if this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0
always => returns, ret >= 0.0
fn UInt64Value::get_AsBoolean()
if this.value == 0 => returns, ret == 0
if this.value > 0 => returns, ret == 1
fn CharValue::CharValue(wchar_t)
always => returns, this'.value == $1
fn CharValue::GetRawDataType()
always => returns, ret == 3
fn CharValue::get_AsSByte()
if this.value >= 0 - 128, this.value <= 127 => returns, ret == this.value
always => returns, ret >= 0 - 128, ret <= 127
if this.value > 127, this.value <= 383 => returns, ret == this.value - 256
if this.value < 0 - 128, this.value >= 0 - 384 => returns, ret == this.value + 256
fn CharValue::get_AsByte()
if this.value >= 0, this.value <= 255 => returns, ret == this.value
always => returns, ret >= 0, ret <= 255
if this.value > 255, this.value <= 511 => returns, ret == this.value - 256
if this.value < 0, this.value >= 0 - 256 => returns, ret == this.value + 256
fn CharValue::get_AsInt16()
if this.value >= 0 - 32768, this.value <= 32767 => returns, ret == this.value
always => returns, ret >= 0 - 32768, ret <= 32767
if this.value > 32767, this.value <= 98303 => returns, ret == this.value - 65536
if this.value < 0 - 32768, this.value >= 0 - 98304 => returns, ret == this.value + 65536
fn CharValue::get_AsUInt16()
if this.value >= 0, this.value <= 65535 => returns, ret == this.value
always => returns, ret >= 0, ret <= 65535
if this.value > 65535, this.value <= 131071 => returns, ret == this.value - 65536
if this.value < 0, this.value >= 0 - 65536 => returns, ret == this.value + 65536
fn CharValue::get_AsInt32()
always => returns, ret == this.value
fn CharValue::get_AsUInt32()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 4294967295
if this.value < 0 => returns, ret == this.value + 4294967296
fn CharValue::get_AsInt64()
always => returns, ret == this.value
fn CharValue::get_AsUInt64()
if this.value >= 0 => returns, ret == this.value
always => returns, ret >= 0, ret <= 18446744073709551615
if this.value < 0 => returns, ret == this.value + 18446744073709551616
fn CharValue::get_AsChar()
always => returns, ret == this.value
fn BooleanValue::BooleanValue(bool)
if $1 == 1 => returns, this'.value == 1
if $1 == 0 => returns, this'.value == 0
fn BooleanValue::GetRawDataType()
always => returns, ret == 2
fn BooleanValue::get_AsSByte()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsByte()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsInt16()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsUInt16()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsInt32()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsUInt32()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsInt64()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsUInt64()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn BooleanValue::get_AsBoolean()
if this.value == 1 => returns, ret == 1
if this.value == 0 => returns, ret == 0
fn SingleValue::SingleValue(float)
if $1 is not nan => returns, this'.value == $1
if $1 is nan => returns, this'.value is nan
fn SingleValue::GetRawDataType()
always => returns, ret == 12
fn SingleValue::get_AsInt16()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 32768.0, this.value is not nan => throws OverflowException
if this.value <= -32769.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == -32768.0, this.value is not nan => returns, ret == -32768
if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99
fn SingleValue::get_AsUInt16()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 65536.0, this.value is not nan => throws OverflowException
if this.value <= -1.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
fn SingleValue::get_AsInt32()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 2147483648.0, this.value is not nan => throws OverflowException
if this.value <= -2147483649.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == -2147483648.0, this.value is not nan => returns, ret == -2147483648
if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99
fn SingleValue::get_AsUInt32()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 4294967296.0, this.value is not nan => throws OverflowException
if this.value <= -1.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
fn SingleValue::get_AsInt64()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 9223372036854775808.0, this.value is not nan => throws OverflowException
if this.value <= -9223374235878031360.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == -9223372036854775808.0, this.value is not nan => returns, ret == -9223372036854775808
if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99
fn SingleValue::get_AsUInt64()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 18446744073709551616.0, this.value is not nan => throws OverflowException
if this.value <= -1.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
fn SingleValue::get_AsSingle()
if this.value is not nan => returns, ret == this.value
if this.value is nan => returns, ret is nan
fn SingleValue::get_AsDouble()
if this.value is not nan => returns, ret == this.value
if this.value is nan => returns, ret is nan
fn DoubleValue::DoubleValue(double)
if $1 is not nan => returns, this'.value == $1
if $1 is nan => returns, this'.value is nan
fn DoubleValue::GetRawDataType()
always => returns, ret == 13
fn DoubleValue::get_AsInt16()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 32768.0, this.value is not nan => throws OverflowException
if this.value <= -32769.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == 32767.0, this.value is not nan => returns, ret == 32767
if this.value == -32768.0, this.value is not nan => returns, ret == -32768
if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99
fn DoubleValue::get_AsUInt16()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 65536.0, this.value is not nan => throws OverflowException
if this.value <= -1.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == 65535.0, this.value is not nan => returns, ret == 65535
fn DoubleValue::get_AsInt32()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 2147483648.0, this.value is not nan => throws OverflowException
if this.value <= -2147483649.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == 2147483647.0, this.value is not nan => returns, ret == 2147483647
if this.value == -2147483648.0, this.value is not nan => returns, ret == -2147483648
if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99
fn DoubleValue::get_AsUInt32()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 4294967296.0, this.value is not nan => throws OverflowException
if this.value <= -1.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == 4294967295.0, this.value is not nan => returns, ret == 4294967295
fn DoubleValue::get_AsInt64()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 9223372036854775808.0, this.value is not nan => throws OverflowException
if this.value <= -9223374235878031360.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
if this.value == -9223372036854775808.0, this.value is not nan => returns, ret == -9223372036854775808
if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99
fn DoubleValue::get_AsUInt64()
if this.value == 0.0, this.value is not nan => returns, ret == 0
if this.value == 1.0, this.value is not nan => returns, ret == 1
if this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99
if this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100
if this.value >= 18446744073709551616.0, this.value is not nan => throws OverflowException
if this.value <= -1.0, this.value is not nan => throws OverflowException
if this.value is nan => throws OverflowException
fn DoubleValue::get_AsSingle()
if this.value == 0.0, this.value is not nan => returns, ret == 0.0
if this.value is nan => returns, ret is nan
if this.value >= 1.0, this.value <= 1000.0, this.value is not nan => returns, ret >= 1.0, ret <= 1000.0
fn DoubleValue::get_AsDouble()
if this.value is not nan => returns, ret == this.value
if this.value is nan => returns, ret is nan
