# BitConverter: ranges accepted
fn BitConverter::ToChar(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 2 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 2 <= $1.total => returns
fn BitConverter::ToDouble(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 8 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 8 <= $1.total => returns
fn BitConverter::ToInt16(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 2 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 2 <= $1.total => returns
fn BitConverter::ToInt32(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 4 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 4 <= $1.total => returns
fn BitConverter::ToInt64(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 8 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 8 <= $1.total => returns
fn BitConverter::ToSingle(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 4 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 4 <= $1.total => returns
fn BitConverter::ToUInt16(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 2 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 2 <= $1.total => returns
fn BitConverter::ToUInt32(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 4 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 4 <= $1.total => returns
fn BitConverter::ToUInt64(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $2 + 8 > $1.total => throws ArgumentException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 8 <= $1.total => returns
fn BitConverter::ToBoolean(Array*, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= $1.total => throws ArgumentOutOfRangeException
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $2 + 1 <= $1.total => returns
fn BitConverter::ToString(Array*, int, int)
if $1 is null => throws ArgumentNullException
if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException
if $1 is not null, $1.total == 0, $2 == 0 => returns, ret.length == 0
if $1 is not null, $2 >= $1.total, $1.total > 0 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $3 < -1 => throws ArgumentOutOfRangeException
if $1 is not null, $2 >= 0, $2 < $1.total, $3 > 0, $2 + $3 > $1.total => throws ArgumentException
if $1 is not null, $2 >= 0, $2 < $1.total, $3 == 0 => returns, ret.length == 0
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $3 == 1, $2 + 1 <= $1.total => returns, ret.length == 2
if $1 is not null, $1.rank == 1, $1.type == 5, $2 >= 0, $3 == 2, $2 + 2 <= $1.total => returns, ret.length == 5
fn BitConverter::GetBytes(bool)
always => returns, ret.total == 1, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(wchar_t)
always => returns, ret.total == 2, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(double)
always => returns, ret.total == 8, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(short)
always => returns, ret.total == 2, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(int)
always => returns, ret.total == 4, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(long)
always => returns, ret.total == 8, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(float)
always => returns, ret.total == 4, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(unsigned short)
always => returns, ret.total == 2, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(unsigned int)
always => returns, ret.total == 4, ret.rank == 1, ret.type == 5
fn BitConverter::GetBytes(unsigned long)
always => returns, ret.total == 8, ret.rank == 1, ret.type == 5
fn BitConverter::DoubleToInt64Bits(double)
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == -9223372036854775808
if $1 is not nan, $1 == 1.0 => returns, ret == 4607182418800017408
if $1 is not nan, $1 == 4.9406564584124654e-324 => returns, ret == 1
if $1 is not nan, $1 == 1e999 => returns, ret == 9218868437227405312
if $1 is not nan, $1 == -1e999 => returns, ret == -4503599627370496
if $1 is not nan, $1 > 0.0 => returns, ret > 0
if $1 is not nan, $1 < 0.0 => returns, ret < 0
fn BitConverter::Int64BitsToDouble(long)
if $1 == 0 => returns, ret is poszero
if $1 == -9223372036854775808 => returns, ret is negzero
if $1 == 1 => returns, ret is not nan, ret == 4.9406564584124654e-324
if $1 == 4607182418800017408 => returns, ret is not nan, ret == 1.0
if $1 == 9218868437227405312 => returns, ret is not nan, ret == 1e999
if $1 == -4503599627370496 => returns, ret is not nan, ret == -1e999
if $1 > 9218868437227405312 => returns, ret is nan
if $1 > -4503599627370496, $1 < 0 => returns, ret is nan
if $1 > 0, $1 < 9218868437227405312 => returns, ret is not nan, ret > 0.0
