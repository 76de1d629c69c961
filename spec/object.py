"""Object.Equals of two references agrees with equality of the values they box; which types are primitive."""
NUM = "BooleanValue CharValue SByteValue ByteValue Int16Value UInt16Value Int32Value UInt32Value Int64Value UInt64Value SingleValue DoubleValue DateTimeValue TimeSpanValue".split()
OTHER = "String StringBuilder Array".split()
print("fn Object::Equals(Object*, Object*)")
print("if $1 is null, $2 is null => returns, ret == 1")
for t in NUM + OTHER:
    print("if $1 is null, $2 isa %s => returns, ret == 0" % t)
    print("if $1 isa %s, $2 is null => returns, ret == 0" % t)
    for u in NUM + OTHER:
        if u != t:
            print("if $1 isa %s, $2 isa %s => returns, ret == 0" % (t, u))
for t in NUM:
    if t in ("SingleValue", "DoubleValue"):
        print("if $1 isa %s, $2 isa %s, $1.value is not nan, $2.value is not nan, $1.value == $2.value => returns, ret == 1" % (t, t))
        print("if $1 isa %s, $2 isa %s, $1.value is not nan, $2.value is not nan, $1.value != $2.value => returns, ret == 0" % (t, t))
        print("if $1 isa %s, $2 isa %s, $1.value is nan, $2.value is nan => returns, ret == 1" % (t, t))
        print("if $1 isa %s, $2 isa %s, $1.value is nan, $2.value is not nan => returns, ret == 0" % (t, t))
    else:
        print("if $1 isa %s, $2 isa %s, $1.value == $2.value => returns, ret == 1" % (t, t))
        print("if $1 isa %s, $2 isa %s, $1.value != $2.value => returns, ret == 0" % (t, t))
print("if $1 isa String, $2 isa String, $1.length != $2.length => returns, ret == 0")
print("fn Object::IsPrimitiveType(DataType)")
print("if $1 < 2 => returns, ret == 0")
print("if $1 >= 2, $1 <= 13 => returns, ret == 1")
print("if $1 > 13 => returns, ret == 0")
# dates and time spans are ordered like their ticks
for t, u in (("DateTimeValue", 0), ("TimeSpanValue", 1)):
    print("fn %s::CompareTo(Object*)" % t)
    print("if $1 is null => returns, ret > 0")
    for o in NUM + OTHER:
        if o != t:
            print("if $1 isa %s => throws ArgumentException" % o)
    for op, p in (("<", "ret < 0"), (">", "ret > 0"), ("==", "ret == 0")):
        print("if $1 isa %s, this.value %s $1.value => returns, %s" % (t, op, p))
    print("fn %s::Equals(Object*)" % t)
    print("if $1 is null => returns, ret == 0")
    for o in NUM + OTHER:
        if o != t:
            print("if $1 isa %s => returns, ret == 0" % o)
    print("if $1 isa %s, this.value == $1.value => returns, ret == 1" % t)
    print("if $1 isa %s, this.value != $1.value => returns, ret == 0" % t)
# objects that box nothing convert to nothing
for t in "Boolean Char SByte Byte Int16 UInt16 Int32 UInt32 Int64 UInt64 Single Double DateTime TimeSpan".split():
    print("fn Object::get_As%s()" % t)
    print("always => throws InvalidCastException")
print("fn CharValue::get_AsSingle()\nif this.value == 0 => returns, ret == 0.0\nif this.value == 7 => returns, ret == 7.0\nif this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0\nif this.value < 0 => returns, ret < 0.0")
print("fn CharValue::get_AsDouble()\nif this.value == 0 => returns, ret == 0.0\nif this.value == 7 => returns, ret == 7.0\nif this.value > 3 => returns, ret >= 4.0\nif this.value == 16777217 => returns, ret == 16777217.0\nif this.value < 0 => returns, ret < 0.0")
# the remainder of floating point numbers is exact and has the sign of the dividend
import math
INF = float("inf")
lit = lambda x: ("-" if x < 0 else "") + "1e999" if math.isinf(x) else repr(float(x))
at = lambda n, x: "$%d == %s, $%d is not nan" % (n, lit(x), n)
for cls, ty in (("DoubleValue", "double"), ("SingleValue", "float")):
    for tag in ("", " #zeros"):
        print("fn %s::Modulus(%s, %s)%s" % (cls, ty, ty, tag))
        if tag:
            for z in ("poszero", "negzero"):
                print("if $1 is %s, %s => returns, ret is %s" % (z, at(2, 3), z))
                print("if $1 is %s, %s => returns, ret is %s" % (z, at(2, -3), z))
            print("if %s, %s => returns, ret is negzero" % (at(1, -4), at(2, 2)))
            print("if %s, %s => returns, ret is poszero" % (at(1, 4), at(2, -2)))
            continue
        for i in (1, 2):
            print("if $%d is nan => returns, ret is nan" % i)
        print("if %s, $1 is not nan => returns, ret is nan" % at(2, 0))
        for s in (INF, -INF):
            print("if %s, $2 is not nan => returns, ret is nan" % at(1, s))
            print("if %s, $1 is not nan, $1 > -1e30, $1 < 1e30 => returns, ret == $1, ret is not nan" % at(2, s))
        for s in (1, -1):
            print("if %s, $1 is not nan, $1 >= 0.0, $1 < 1e30 => returns, ret >= 0.0, ret < 1.0, ret is not nan" % at(2, s))
            print("if %s, $1 is not nan, $1 <= 0.0, $1 > -1e30 => returns, ret <= 0.0, ret > -1.0, ret is not nan" % at(2, s))
        for x, y in ((7, 3), (-7, 3), (7, -3), (-7, -3), (5.5, 2), (-5.5, 2), (1, 3), (3, 3), (8, 0.25), (1e10, 7), (2.0 ** 60, 3), (0.75, 0.5)):
            print("if %s, %s => returns, ret == %s, ret is not nan" % (at(1, x), at(2, y), lit(math.fmod(x, y))))
