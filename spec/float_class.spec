# Classification of floating point numbers (generated by tools/mkfloat.py)
fn DoubleValue::IsNaN(double)
if $1 is nan => returns, ret == 1
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn DoubleValue::IsFinite(double)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 1
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 1
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 1
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 1
if $1 is not nan, $1 == 0.0 => returns, ret == 1
if $1 is poszero => returns, ret == 1
if $1 is negzero => returns, ret == 1
fn DoubleValue::IsInfinity(double)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 1
if $1 is not nan, $1 == -1e999 => returns, ret == 1
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn DoubleValue::IsNegative(double)
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 1
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 1
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 1
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 1
fn DoubleValue::IsNegativeInfinity(double)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 1
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn DoubleValue::IsNormal(double)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 1
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 1
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn DoubleValue::IsPositiveInfinity(double)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 1
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn DoubleValue::IsSubnormal(double)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 2.2250738585072014e-308, $1 <= 1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 <= -2.2250738585072014e-308, $1 >= -1.7976931348623157e308 => returns, ret == 0
if $1 is not nan, $1 >= 4.9406564584124654e-324, $1 < 2.2250738585072014e-308 => returns, ret == 1
if $1 is not nan, $1 <= -4.9406564584124654e-324, $1 > -2.2250738585072014e-308 => returns, ret == 1
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn SingleValue::IsNaN(float)
if $1 is nan => returns, ret == 1
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn SingleValue::IsFinite(float)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 1
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 1
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 1
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 1
if $1 is not nan, $1 == 0.0 => returns, ret == 1
if $1 is poszero => returns, ret == 1
if $1 is negzero => returns, ret == 1
fn SingleValue::IsInfinity(float)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 1
if $1 is not nan, $1 == -1e999 => returns, ret == 1
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn SingleValue::IsNegative(float)
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 1
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 1
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 1
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 1
fn SingleValue::IsNegativeInfinity(float)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 1
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn SingleValue::IsNormal(float)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 1
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 1
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn SingleValue::IsPositiveInfinity(float)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 1
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 0
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
fn SingleValue::IsSubnormal(float)
if $1 is nan => returns, ret == 0
if $1 is not nan, $1 == 1e999 => returns, ret == 0
if $1 is not nan, $1 == -1e999 => returns, ret == 0
if $1 is not nan, $1 >= 1.1754943508222875e-38, $1 <= 3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 <= -1.1754943508222875e-38, $1 >= -3.4028234663852886e38 => returns, ret == 0
if $1 is not nan, $1 >= 1.401298464324817e-45, $1 < 1.1754943508222875e-38 => returns, ret == 1
if $1 is not nan, $1 <= -1.401298464324817e-45, $1 > -1.1754943508222875e-38 => returns, ret == 1
if $1 is not nan, $1 == 0.0 => returns, ret == 0
if $1 is poszero => returns, ret == 0
if $1 is negzero => returns, ret == 0
