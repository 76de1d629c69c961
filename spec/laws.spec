# Laws of composed operations (harness/laws.cpp)
fn Laws::RoundTripInt16(short)
always => returns, ret == $1
fn Laws::RoundTripUInt16(unsigned short)
always => returns, ret == $1
fn Laws::RoundTripInt32(int)
always => returns, ret == $1
fn Laws::RoundTripUInt32(unsigned int)
always => returns, ret == $1
fn Laws::RoundTripInt64(long)
always => returns, ret == $1
fn Laws::RoundTripUInt64(unsigned long)
always => returns, ret == $1
fn Laws::RoundTripDouble(double)
if $1 is not nan, $1 == 5e-324 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -5e-324 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 2.225073858507201e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -2.225073858507201e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.7976931348623157e+308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.7976931348623157e+308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 > 0, $1 < 2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 < 0, $1 > -2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 < 1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 > -1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 >= 1.0, $1 <= 1.7976931348623157e308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 <= -1.0, $1 >= -1.7976931348623157e308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1e999 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1e999 => returns, ret == $1, ret is not nan
if $1 is negzero => returns, ret is negzero
if $1 is poszero => returns, ret is poszero
if $1 is not nan => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
fn Laws::RoundTripSingle(float)
if $1 is not nan, $1 == 1.401298464324817e-45 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.401298464324817e-45 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.1754942106924411e-38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.1754942106924411e-38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.1754943508222875e-38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.1754943508222875e-38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 3.4028234663852886e+38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -3.4028234663852886e+38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 > 0, $1 < 1.1754943508222875e-38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 < 0, $1 > -1.1754943508222875e-38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 < 1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 > -1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 >= 1.0, $1 <= 3.4028234663852886e38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 <= -1.0, $1 >= -3.4028234663852886e38 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1e999 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1e999 => returns, ret == $1, ret is not nan
if $1 is negzero => returns, ret is negzero
if $1 is poszero => returns, ret is poszero
if $1 is not nan => returns, ret == $1, ret is not nan
if $1 is nan => returns, ret is nan
fn Laws::RoundTripBoolean(bool)
always => returns, ret == $1
fn Laws::RoundTripChar(wchar_t)
if $1 >= 0, $1 <= 65535 => returns, ret == $1
fn Laws::RoundTripBits(long)
if $1 > 0, $1 <= 9218868437227405312 => returns, ret == $1
if $1 == 0 => returns, ret == 0
fn Laws::RoundTripBitsDouble(double)
if $1 is not nan, $1 == 5e-324 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -5e-324 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 2.225073858507201e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -2.225073858507201e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1.7976931348623157e+308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1.7976931348623157e+308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 > 0, $1 < 2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 < 0, $1 > -2.2250738585072014e-308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 < 1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 > -1.0 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 >= 1.0, $1 <= 1.7976931348623157e308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 <= -1.0, $1 >= -1.7976931348623157e308 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == 1e999 => returns, ret == $1, ret is not nan
if $1 is not nan, $1 == -1e999 => returns, ret == $1, ret is not nan
if $1 is negzero => returns, ret is negzero
if $1 is poszero => returns, ret is poszero
if $1 is not nan => returns, ret == $1, ret is not nan
fn Laws::ByteCountInt16(short)
always => returns, ret == 2
fn Laws::ByteCountUInt16(unsigned short)
always => returns, ret == 2
fn Laws::ByteCountInt32(int)
always => returns, ret == 4
fn Laws::ByteCountUInt32(unsigned int)
always => returns, ret == 4
fn Laws::ByteCountInt64(long)
always => returns, ret == 8
fn Laws::ByteCountUInt64(unsigned long)
always => returns, ret == 8
fn Laws::ByteCountDouble(double)
always => returns, ret == 8
fn Laws::ByteCountSingle(float)
always => returns, ret == 4
fn Laws::ByteCountChar(wchar_t)
always => returns, ret == 2
fn Laws::ByteCountBoolean(bool)
always => returns, ret == 1
