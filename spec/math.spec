# Math: exact integer results and selection (generated by tools/mkmath.py)
fn Math::Abs(signed char)
if $1 == -128 => throws OverflowException
if $1 >= 0 => returns, ret == $1
if $1 < 0, $1 > -128 => returns, ret == -$1
fn Math::Sign(signed char)
if $1 > 0 => returns, ret == 1
if $1 == 0 => returns, ret == 0
if $1 < 0 => returns, ret == -1
fn Math::Clamp(signed char, signed char, signed char)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(signed char, signed char)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(signed char, signed char)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Clamp(unsigned char, unsigned char, unsigned char)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(unsigned char, unsigned char)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(unsigned char, unsigned char)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Abs(short)
if $1 == -32768 => throws OverflowException
if $1 >= 0 => returns, ret == $1
if $1 < 0, $1 > -32768 => returns, ret == -$1
fn Math::Sign(short)
if $1 > 0 => returns, ret == 1
if $1 == 0 => returns, ret == 0
if $1 < 0 => returns, ret == -1
fn Math::Clamp(short, short, short)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(short, short)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(short, short)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Clamp(unsigned short, unsigned short, unsigned short)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(unsigned short, unsigned short)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(unsigned short, unsigned short)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Abs(int)
if $1 == -2147483648 => throws OverflowException
if $1 >= 0 => returns, ret == $1
if $1 < 0, $1 > -2147483648 => returns, ret == -$1
fn Math::Sign(int)
if $1 > 0 => returns, ret == 1
if $1 == 0 => returns, ret == 0
if $1 < 0 => returns, ret == -1
fn Math::Clamp(int, int, int)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(int, int)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(int, int)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Clamp(unsigned int, unsigned int, unsigned int)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(unsigned int, unsigned int)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(unsigned int, unsigned int)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Abs(long)
if $1 == -9223372036854775808 => throws OverflowException
if $1 >= 0 => returns, ret == $1
if $1 < 0, $1 > -9223372036854775808 => returns, ret == -$1
fn Math::Sign(long)
if $1 > 0 => returns, ret == 1
if $1 == 0 => returns, ret == 0
if $1 < 0 => returns, ret == -1
fn Math::Clamp(long, long, long)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(long, long)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(long, long)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Clamp(unsigned long, unsigned long, unsigned long)
if $2 > $3 => throws ArgumentException
if $2 <= $3, $1 < $2 => returns, ret == $2
if $2 <= $3, $1 > $3 => returns, ret == $3
if $1 >= $2, $1 <= $3 => returns, ret == $1
fn Math::Max(unsigned long, unsigned long)
if $1 >= $2 => returns, ret == $1
if $1 < $2 => returns, ret == $2
fn Math::Min(unsigned long, unsigned long)
if $1 >= $2 => returns, ret == $2
if $1 < $2 => returns, ret == $1
fn Math::Clamp(float, float, float)
if $1 is not nan, $2 is not nan, $3 is not nan, $2 > $3 => throws ArgumentException
if $1 is not nan, $2 is not nan, $3 is not nan, $2 <= $3, $1 < $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $3 is not nan, $2 <= $3, $1 > $3 => returns, ret == $3, ret is not nan
if $1 is not nan, $2 is not nan, $3 is not nan, $1 >= $2, $1 <= $3 => returns, ret == $1, ret is not nan
if $1 is nan, $2 <= $3, $2 is not nan, $3 is not nan => returns, ret is nan
fn Math::Max(float, float)
if $1 is not nan, $2 is not nan, $1 > $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 == $2 => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
fn Math::Min(float, float)
if $1 is not nan, $2 is not nan, $1 > $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 < $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 == $2 => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
fn Math::Sign(float)
if $1 is not nan, $1 > 0.0 => returns, ret == 1
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is not nan, $1 < 0.0 => returns, ret == -1
if $1 is nan => throws ArithmeticException
fn Math::Abs(float)
if $1 is not nan, $1 >= 0.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 < 0.0 => returns, ret == -$1, ret is not nan
if $1 is nan => returns, ret is nan
fn Math::Clamp(double, double, double)
if $1 is not nan, $2 is not nan, $3 is not nan, $2 > $3 => throws ArgumentException
if $1 is not nan, $2 is not nan, $3 is not nan, $2 <= $3, $1 < $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $3 is not nan, $2 <= $3, $1 > $3 => returns, ret == $3, ret is not nan
if $1 is not nan, $2 is not nan, $3 is not nan, $1 >= $2, $1 <= $3 => returns, ret == $1, ret is not nan
if $1 is nan, $2 <= $3, $2 is not nan, $3 is not nan => returns, ret is nan
fn Math::Max(double, double)
if $1 is not nan, $2 is not nan, $1 > $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 == $2 => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
fn Math::Min(double, double)
if $1 is not nan, $2 is not nan, $1 > $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 < $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 == $2 => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
fn Math::Sign(double)
if $1 is not nan, $1 > 0.0 => returns, ret == 1
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is not nan, $1 < 0.0 => returns, ret == -1
if $1 is nan => throws ArithmeticException
fn Math::Abs(double)
if $1 is not nan, $1 >= 0.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 < 0.0 => returns, ret == -$1, ret is not nan
if $1 is nan => returns, ret is nan
fn Math::MaxMagnitude(double, double)
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 > 0.0, $1 > $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 > 0.0, $1 < $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0, $1 > -$2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0, $1 < -$2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0, $1 == -$2 => returns, ret > 0.0, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0, -$1 > $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0, -$1 < $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0, -$1 == $2 => returns, ret > 0.0, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 < 0.0, -$1 > -$2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 < 0.0, -$1 < -$2 => returns, ret == $2, ret is not nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
fn Math::MinMagnitude(double, double)
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 > 0.0, $1 > $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 > 0.0, $1 < $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0, $1 > -$2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0, $1 < -$2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0, $1 == -$2 => returns, ret < 0.0, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0, -$1 > $2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0, -$1 < $2 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0, -$1 == $2 => returns, ret < 0.0, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 < 0.0, -$1 > -$2 => returns, ret == $2, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 < 0.0, -$1 < -$2 => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
fn Math::DivRem(int, int, int&)
if $2 == 0 => throws DivideByZeroException
if $1 == -2147483648, $2 == -1 => throws OverflowException
if $2 == -1, $1 > -2147483648 => returns, ret == -$1, $3' == 0
if $2 == 1 => returns, ret == $1, $3' == 0
if $2 == 10 => returns, $1 == ret * 10 + $3', $3' > -10, $3' < 10
if $2 == 10, $1 >= 0 => returns, $3' >= 0, ret >= 0
if $2 == 10, $1 <= 0 => returns, $3' <= 0, ret <= 0
if $2 == -7 => returns, $1 == ret * -7 + $3', $3' > -7, $3' < 7
if $2 > $1, $1 >= 0 => returns, ret == 0, $3' == $1
if $2 == $1, $1 != 0, $1 != -1 => returns, ret == 1, $3' == 0
if $2 != 0, $1 == 0 => returns, ret == 0, $3' == 0
fn Math::DivRem(long, long, long&)
if $2 == 0 => throws DivideByZeroException
if $1 == -9223372036854775808, $2 == -1 => throws OverflowException
if $2 == -1, $1 > -9223372036854775808 => returns, ret == -$1, $3' == 0
if $2 == 1 => returns, ret == $1, $3' == 0
if $2 == 10 => returns, $1 == ret * 10 + $3', $3' > -10, $3' < 10
if $2 == 10, $1 >= 0 => returns, $3' >= 0, ret >= 0
if $2 == 10, $1 <= 0 => returns, $3' <= 0, ret <= 0
if $2 == -7 => returns, $1 == ret * -7 + $3', $3' > -7, $3' < 7
if $2 > $1, $1 >= 0 => returns, ret == 0, $3' == $1
if $2 == $1, $1 != 0, $1 != -1 => returns, ret == 1, $3' == 0
if $2 != 0, $1 == 0 => returns, ret == 0, $3' == 0
fn Math::Divide(long, long)
if $2 == 0 => throws DivideByZeroException
if $1 == -9223372036854775808, $2 == -1 => throws OverflowException
if $2 == 1 => returns, ret == $1
if $2 == -1, $1 > -9223372036854775808 => returns, ret == -$1
if $2 == 10 => returns, $1 - ret * 10 > -10, $1 - ret * 10 < 10
if $2 == $1, $1 != 0, $1 != -1 => returns, ret == 1
fn Math::Divide(double, double)
if $2 == 0.0, $2 is not nan, $1 is not nan, $1 == 0.0 => returns, ret is nan
if $2 == 0.0, $2 is not nan, $1 is nan => returns, ret is nan
if $1 is nan => returns, ret is nan
if $2 is nan => returns, ret is nan
if $2 == 0.0, $1 is not nan, $2 is not nan, $1 != 0.0 => returns, ret == 1e999 | ret == -1e999
if $1 == 6.0, $2 == 2.0, $1 is not nan, $2 is not nan => returns, ret == 3.0, ret is not nan
if $1 == -6.0, $2 == 4.0, $1 is not nan, $2 is not nan => returns, ret == -1.5, ret is not nan
fn Math::BigMul(int, int)
always => returns, ret == $1 * $2
fn Math::Round(double, int)
if $2 < 0 => throws ArgumentOutOfRangeException
if $2 > 15 => throws ArgumentOutOfRangeException
if $2 >= 0, $2 <= 15 => returns
fn Math::Round(double, int, MidpointRounding)
if $2 < 0 => throws ArgumentOutOfRangeException
if $2 > 15 => throws ArgumentOutOfRangeException
if $2 >= 0, $2 <= 15, $3 < 0 => throws ArgumentException
if $2 >= 0, $2 <= 15, $3 > 4 => throws ArgumentException
if $2 >= 0, $2 <= 15, $3 >= 0, $3 <= 4 => returns
if $1 >= 1e16, $1 is not nan, $2 >= 0, $2 <= 15, $3 >= 0, $3 <= 4 => returns, ret == $1, ret is not nan
if $1 == 2.5, $1 is not nan, $2 == 0, $3 == 2 => returns, ret == 2.0
if $1 == 2.5, $1 is not nan, $2 == 0, $3 == 3 => returns, ret == 2.0
if $1 == 2.5, $1 is not nan, $2 == 0, $3 == 4 => returns, ret == 3.0
if $1 == -2.5, $1 is not nan, $2 == 0, $3 == 2 => returns, ret == -2.0
if $1 == -2.5, $1 is not nan, $2 == 0, $3 == 3 => returns, ret == -3.0
if $1 == -2.5, $1 is not nan, $2 == 0, $3 == 4 => returns, ret == -2.0
if $1 is nan, $2 >= 0, $2 <= 15, $3 >= 0, $3 <= 4 => returns, ret is nan
fn Math::Round(double)
if $1 is nan => returns, ret is nan
if $1 >= 4503599627370496.0, $1 is not nan => returns, ret == $1
if $1 <= -4503599627370496.0, $1 is not nan => returns, ret == $1
if $1 == 0.5, $1 is not nan => returns, ret == 0.0
if $1 == 1.5, $1 is not nan => returns, ret == 2.0
if $1 == 2.5, $1 is not nan => returns, ret == 2.0
if $1 == -3.5, $1 is not nan => returns, ret == -4.0
if $1 > 0.5, $1 < 1.0, $1 is not nan => returns, ret == 1.0
if $1 > -0.5, $1 < 0.5, $1 is not nan => returns, ret == 0.0
fn Math::Floor(double)
if $1 > 2.0, $1 < 3.0, $1 is not nan => returns, ret == 2.0
if $1 > -3.0, $1 < -2.0, $1 is not nan => returns, ret == -3.0
if $1 is nan => returns, ret is nan
if $1 == 7.0, $1 is not nan => returns, ret == 7.0
fn Math::Ceiling(double)
if $1 > 2.0, $1 < 3.0, $1 is not nan => returns, ret == 3.0
if $1 > -3.0, $1 < -2.0, $1 is not nan => returns, ret == -2.0
if $1 is nan => returns, ret is nan
if $1 == 7.0, $1 is not nan => returns, ret == 7.0
fn Math::Truncate(double)
if $1 > 2.0, $1 < 3.0, $1 is not nan => returns, ret == 2.0
if $1 > -3.0, $1 < -2.0, $1 is not nan => returns, ret == -2.0
if $1 is nan => returns, ret is nan
if $1 == 7.0, $1 is not nan => returns, ret == 7.0
fn Math::BitIncrement(double)
if $1 is nan => returns, ret is nan
if $1 is not nan, $1 == 1e999 => returns, ret == 1e999, ret is not nan
if $1 is not nan, $1 < 1e999, $1 > 0.0 => returns, ret > $1, ret is not nan
if $1 is not nan, $1 < 0.0, $1 > -1e999 => returns, ret > $1, ret is not nan
if $1 is not nan, $1 == -1e999 => returns, ret > $1, ret is not nan
if $1 is not nan, $1 == 0.0 => returns, ret > 0.0, ret is not nan
fn Math::BitDecrement(double)
if $1 is nan => returns, ret is nan
if $1 is not nan, $1 == -1e999 => returns, ret == -1e999, ret is not nan
if $1 is not nan, $1 < 1e999, $1 > 0.0 => returns, ret < $1, ret is not nan
if $1 is not nan, $1 < 0.0, $1 > -1e999 => returns, ret < $1, ret is not nan
if $1 is not nan, $1 == 1e999 => returns, ret < $1, ret is not nan
if $1 is not nan, $1 == 0.0 => returns, ret < 0.0, ret is not nan
fn Math::CopySign(double, double)
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 > 0.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $2 is not nan, $1 > 0.0, $2 < 0.0 => returns, ret == -$1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 > 0.0 => returns, ret == -$1, ret is not nan
if $1 is not nan, $2 is not nan, $1 < 0.0, $2 < 0.0 => returns, ret == $1, ret is not nan
fn Math::ILogB(double)
if $1 is nan => returns, ret == 2147483647
if $1 is not nan, $1 == 0.0 => returns, ret == -2147483648
fn Math::Max(float, float) #zeros
if $1 is negzero, $2 is poszero => returns, ret is poszero
if $1 is poszero, $2 is negzero => returns, ret is poszero
if $1 is poszero, $2 is poszero => returns, ret is poszero
if $1 is negzero, $2 is negzero => returns, ret is negzero
fn Math::Min(float, float) #zeros
if $1 is negzero, $2 is poszero => returns, ret is negzero
if $1 is poszero, $2 is negzero => returns, ret is negzero
if $1 is poszero, $2 is poszero => returns, ret is poszero
if $1 is negzero, $2 is negzero => returns, ret is negzero
fn Math::Abs(float) #zeros
if $1 is negzero => returns, ret is poszero
if $1 is poszero => returns, ret is poszero
fn Math::Sign(float) #zeros
if $1 is negzero => returns, ret == 0
if $1 is poszero => returns, ret == 0
fn Math::Max(double, double) #zeros
if $1 is negzero, $2 is poszero => returns, ret is poszero
if $1 is poszero, $2 is negzero => returns, ret is poszero
if $1 is poszero, $2 is poszero => returns, ret is poszero
if $1 is negzero, $2 is negzero => returns, ret is negzero
fn Math::Min(double, double) #zeros
if $1 is negzero, $2 is poszero => returns, ret is negzero
if $1 is poszero, $2 is negzero => returns, ret is negzero
if $1 is poszero, $2 is poszero => returns, ret is poszero
if $1 is negzero, $2 is negzero => returns, ret is negzero
fn Math::Abs(double) #zeros
if $1 is negzero => returns, ret is poszero
if $1 is poszero => returns, ret is poszero
fn Math::Sign(double) #zeros
if $1 is negzero => returns, ret == 0
if $1 is poszero => returns, ret == 0
fn Math::MaxMagnitude(double, double) #zeros
if $1 is negzero, $2 is poszero => returns, ret is poszero
if $1 is poszero, $2 is negzero => returns, ret is poszero
if $1 is poszero, $2 is not nan, $2 > 0.0 => returns, ret == $2
if $2 is poszero, $1 is not nan, $1 > 0.0 => returns, ret == $1
if $1 is poszero, $2 is not nan, $2 < 0.0 => returns, ret == $2
if $2 is poszero, $1 is not nan, $1 < 0.0 => returns, ret == $1
if $1 is negzero, $2 is not nan, $2 > 0.0 => returns, ret == $2
if $2 is negzero, $1 is not nan, $1 > 0.0 => returns, ret == $1
if $1 is negzero, $2 is not nan, $2 < 0.0 => returns, ret == $2
if $2 is negzero, $1 is not nan, $1 < 0.0 => returns, ret == $1
fn Math::MinMagnitude(double, double) #zeros
if $1 is negzero, $2 is poszero => returns, ret is negzero
if $1 is poszero, $2 is negzero => returns, ret is negzero
if $1 is poszero, $2 is not nan, $2 > 0.0 => returns, ret is poszero
if $2 is poszero, $1 is not nan, $1 > 0.0 => returns, ret is poszero
if $1 is poszero, $2 is not nan, $2 < 0.0 => returns, ret is poszero
if $2 is poszero, $1 is not nan, $1 < 0.0 => returns, ret is poszero
if $1 is negzero, $2 is not nan, $2 > 0.0 => returns, ret is negzero
if $2 is negzero, $1 is not nan, $1 > 0.0 => returns, ret is negzero
if $1 is negzero, $2 is not nan, $2 < 0.0 => returns, ret is negzero
if $2 is negzero, $1 is not nan, $1 < 0.0 => returns, ret is negzero
fn Math::Round(double) #zeros
if $1 is poszero => returns, ret is poszero
if $1 is negzero => returns, ret is negzero
if $1 is not nan, $1 > -0.5, $1 < 0.0 => returns, ret is negzero
if $1 is not nan, $1 > 0.0, $1 < 0.5 => returns, ret is poszero
if $1 is not nan, $1 == -0.5 => returns, ret is negzero
if $1 is not nan, $1 == 0.5 => returns, ret is poszero
fn Math::Floor(double) #zeros
if $1 is poszero => returns, ret is poszero
if $1 is negzero => returns, ret is negzero
if $1 is not nan, $1 > 0.0, $1 < 1.0 => returns, ret is poszero
fn Math::Ceiling(double) #zeros
if $1 is poszero => returns, ret is poszero
if $1 is negzero => returns, ret is negzero
if $1 is not nan, $1 > -1.0, $1 < 0.0 => returns, ret is negzero
fn Math::Truncate(double) #zeros
if $1 is poszero => returns, ret is poszero
if $1 is negzero => returns, ret is negzero
if $1 is not nan, $1 > -1.0, $1 < 0.0 => returns, ret is negzero
if $1 is not nan, $1 > 0.0, $1 < 1.0 => returns, ret is poszero
fn Math::BitIncrement(double) #zeros
if $1 is poszero => returns, ret == 4.9406564584124654e-324, ret is not nan
if $1 is negzero => returns, ret == 4.9406564584124654e-324, ret is not nan
fn Math::BitDecrement(double) #zeros
if $1 is poszero => returns, ret == -4.9406564584124654e-324, ret is not nan
if $1 is negzero => returns, ret == -4.9406564584124654e-324, ret is not nan
fn Math::BitIncrement(double) #zeros2
if $1 is not nan, $1 == -4.9406564584124654e-324 => returns, ret is negzero
fn Math::BitDecrement(double) #zeros2
if $1 is not nan, $1 == 4.9406564584124654e-324 => returns, ret is poszero
fn Math::CopySign(double, double) #zeros
if $1 is poszero, $2 is poszero => returns, ret is poszero
if $1 is negzero, $2 is poszero => returns, ret is poszero
if $1 is not nan, $1 > 0.0, $2 is poszero => returns, ret == $1
if $1 is not nan, $1 < 0.0, $2 is poszero => returns, ret == -$1
if $1 is poszero, $2 is not nan, $2 > 0.0 => returns, ret is poszero
if $1 is poszero, $2 is not nan, $2 < 0.0 => returns, ret is negzero
if $1 is poszero, $2 is negzero => returns, ret is negzero
if $1 is negzero, $2 is negzero => returns, ret is negzero
if $1 is not nan, $1 > 0.0, $2 is negzero => returns, ret == -$1
if $1 is not nan, $1 < 0.0, $2 is negzero => returns, ret == $1
if $1 is negzero, $2 is not nan, $2 > 0.0 => returns, ret is poszero
if $1 is negzero, $2 is not nan, $2 < 0.0 => returns, ret is negzero
fn Math::Divide(double, double) #zeros
if $2 is poszero, $1 is not nan, $1 > 0.0 => returns, ret == 1e999, ret is not nan
if $1 is poszero, $2 is not nan, $2 > 0.0 => returns, ret is poszero
if $2 is poszero, $1 is not nan, $1 < 0.0 => returns, ret == -1e999, ret is not nan
if $1 is poszero, $2 is not nan, $2 < 0.0 => returns, ret is negzero
if $1 is poszero, $2 is poszero => returns, ret is nan
if $1 is poszero, $2 is negzero => returns, ret is nan
if $2 is negzero, $1 is not nan, $1 > 0.0 => returns, ret == -1e999, ret is not nan
if $1 is negzero, $2 is not nan, $2 > 0.0 => returns, ret is negzero
if $2 is negzero, $1 is not nan, $1 < 0.0 => returns, ret == 1e999, ret is not nan
if $1 is negzero, $2 is not nan, $2 < 0.0 => returns, ret is poszero
if $1 is negzero, $2 is poszero => returns, ret is nan
if $1 is negzero, $2 is negzero => returns, ret is nan
fn Math::ILogB(double) #zeros
if $1 is poszero => returns, ret == -2147483648
if $1 is negzero => returns, ret == -2147483648
