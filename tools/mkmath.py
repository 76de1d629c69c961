"""Writes spec/math.spec (integer and selection functions of Math)."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
T = {"signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0)}
o = ["# Math: exact integer results and selection (generated by tools/mkmath.py)"]
for t, (b, s) in T.items():
    lo = -(1 << (b - 1))
    if s:
        if True:
            o += ["fn Math::Abs(%s)" % t, "if $1 == %d => throws OverflowException" % lo, "if $1 >= 0 => returns, ret == $1", "if $1 < 0, $1 > %d => returns, ret == -$1" % lo]
        o += ["fn Math::Sign(%s)" % t, "if $1 > 0 => returns, ret == 1", "if $1 == 0 => returns, ret == 0", "if $1 < 0 => returns, ret == -1"]
    o += ["fn Math::Clamp(%s, %s, %s)" % (t, t, t), "if $2 > $3 => throws ArgumentException",
          "if $2 <= $3, $1 < $2 => returns, ret == $2", "if $2 <= $3, $1 > $3 => returns, ret == $3", "if $1 >= $2, $1 <= $3 => returns, ret == $1"]
    o += ["fn Math::Max(%s, %s)" % (t, t), "if $1 >= $2 => returns, ret == $1", "if $1 < $2 => returns, ret == $2"]
    o += ["fn Math::Min(%s, %s)" % (t, t), "if $1 >= $2 => returns, ret == $2", "if $1 < $2 => returns, ret == $1"]
for t in ("float", "double"):
    nn = ", ".join("$%d is not nan" % i for i in (1, 2, 3))
    o += ["fn Math::Clamp(%s, %s, %s)" % (t, t, t), "if %s, $2 > $3 => throws ArgumentException" % nn,
          "if %s, $2 <= $3, $1 < $2 => returns, ret == $2, ret is not nan" % nn, "if %s, $2 <= $3, $1 > $3 => returns, ret == $3, ret is not nan" % nn, "if %s, $1 >= $2, $1 <= $3 => returns, ret == $1, ret is not nan" % nn,
          "if $1 is nan, $2 <= $3, $2 is not nan, $3 is not nan => returns, ret is nan"]
    nn = "$1 is not nan, $2 is not nan"
    for f, a, c in (("Max", "$1", "$2"), ("Min", "$2", "$1")):
        o += ["fn Math::%s(%s, %s)" % (f, t, t), "if %s, $1 > $2 => returns, ret == %s, ret is not nan" % (nn, a), "if %s, $1 < $2 => returns, ret == %s, ret is not nan" % (nn, c),
              "if %s, $1 == $2 => returns, ret == $1, ret is not nan" % nn, "if $1 is nan => returns, ret is nan", "if $2 is nan => returns, ret is nan"]
    o += ["fn Math::Sign(%s)" % t, "if $1 is not nan, $1 > 0.0 => returns, ret == 1", "if $1 is not nan, $1 == 0.0 => returns, ret == 0", "if $1 is not nan, $1 < 0.0 => returns, ret == -1", "if $1 is nan => throws ArithmeticException"]
    o += ["fn Math::Abs(%s)" % t, "if $1 is not nan, $1 >= 0.0 => returns, ret == $1, ret is not nan", "if $1 is not nan, $1 < 0.0 => returns, ret == -$1, ret is not nan", "if $1 is nan => returns, ret is nan"]
nn = "$1 is not nan, $2 is not nan"
for f, big in (("MaxMagnitude", 1), ("MinMagnitude", 0)):
    for s1 in (1, -1):
        for s2 in (1, -1):
            p = "$1 %s 0.0, $2 %s 0.0" % (">" if s1 > 0 else "<", ">" if s2 > 0 else "<")
            m1, m2 = ("$1" if s1 > 0 else "-$1"), ("$2" if s2 > 0 else "-$2")
            if (s1, s2) == (1, 1):
                o += ["fn Math::%s(double, double)" % f]
            o += ["if %s, %s, %s > %s => returns, ret == %s, ret is not nan" % (nn, p, m1, m2, "$1" if big else "$2"), "if %s, %s, %s < %s => returns, ret == %s, ret is not nan" % (nn, p, m1, m2, "$2" if big else "$1")]
            if (s1, s2) != (1, 1) and s1 != s2:
                o += ["if %s, %s, %s == %s => returns, ret %s 0.0, ret is not nan" % (nn, p, m1, m2, ">" if big else "<")]
    o += ["if $1 is nan => returns, ret is nan", "if $2 is nan => returns, ret is nan"]
for t, lo in (("int", -(1 << 31)), ("long", -(1 << 63))):
    o += ["fn Math::DivRem(%s, %s, %s&)" % (t, t, t), "if $2 == 0 => throws DivideByZeroException", "if $1 == %d, $2 == -1 => throws OverflowException" % lo,
          "if $2 == -1, $1 > %d => returns, ret == -$1, $3' == 0" % lo, "if $2 == 1 => returns, ret == $1, $3' == 0", "if $2 == 10 => returns, $1 == ret * 10 + $3', $3' > -10, $3' < 10",
          "if $2 == 10, $1 >= 0 => returns, $3' >= 0, ret >= 0", "if $2 == 10, $1 <= 0 => returns, $3' <= 0, ret <= 0",
          "if $2 == -7 => returns, $1 == ret * -7 + $3', $3' > -7, $3' < 7", "if $2 > $1, $1 >= 0 => returns, ret == 0, $3' == $1", "if $2 == $1, $1 != 0, $1 != -1 => returns, ret == 1, $3' == 0",
          "if $2 != 0, $1 == 0 => returns, ret == 0, $3' == 0"]
o += ["fn Math::Divide(long, long)", "if $2 == 0 => throws DivideByZeroException", "if $1 == %d, $2 == -1 => throws OverflowException" % -(1 << 63), "if $2 == 1 => returns, ret == $1",
      "if $2 == -1, $1 > %d => returns, ret == -$1" % -(1 << 63), "if $2 == 10 => returns, $1 - ret * 10 > -10, $1 - ret * 10 < 10", "if $2 == $1, $1 != 0, $1 != -1 => returns, ret == 1"]
o += ["fn Math::Divide(double, double)", "if $2 == 0.0, $2 is not nan, $1 is not nan, $1 == 0.0 => returns, ret is nan", "if $2 == 0.0, $2 is not nan, $1 is nan => returns, ret is nan", "if $1 is nan => returns, ret is nan", "if $2 is nan => returns, ret is nan",
      "if $2 == 0.0, %s, $1 != 0.0 => returns, ret == 1e999 | ret == -1e999" % nn, "if $1 == 6.0, $2 == 2.0, %s => returns, ret == 3.0, ret is not nan" % nn, "if $1 == -6.0, $2 == 4.0, %s => returns, ret == -1.5, ret is not nan" % nn]
o += ["fn Math::BigMul(int, int)", "always => returns, ret == $1 * $2"]
o += ["fn Math::Round(double, int)", "if $2 < 0 => throws ArgumentOutOfRangeException", "if $2 > 15 => throws ArgumentOutOfRangeException", "if $2 >= 0, $2 <= 15 => returns"]
o += ["fn Math::Round(double, int, MidpointRounding)", "if $2 < 0 => throws ArgumentOutOfRangeException", "if $2 > 15 => throws ArgumentOutOfRangeException",
      "if $2 >= 0, $2 <= 15, $3 < 0 => throws ArgumentException", "if $2 >= 0, $2 <= 15, $3 > 4 => throws ArgumentException", "if $2 >= 0, $2 <= 15, $3 >= 0, $3 <= 4 => returns",
      "if $1 >= 1e16, $1 is not nan, $2 >= 0, $2 <= 15, $3 >= 0, $3 <= 4 => returns, ret == $1, ret is not nan",
      "if $1 == 2.5, $1 is not nan, $2 == 0, $3 == 2 => returns, ret == 2.0", "if $1 == 2.5, $1 is not nan, $2 == 0, $3 == 3 => returns, ret == 2.0", "if $1 == 2.5, $1 is not nan, $2 == 0, $3 == 4 => returns, ret == 3.0",
      "if $1 == -2.5, $1 is not nan, $2 == 0, $3 == 2 => returns, ret == -2.0", "if $1 == -2.5, $1 is not nan, $2 == 0, $3 == 3 => returns, ret == -3.0", "if $1 == -2.5, $1 is not nan, $2 == 0, $3 == 4 => returns, ret == -2.0",
      "if $1 is nan, $2 >= 0, $2 <= 15, $3 >= 0, $3 <= 4 => returns, ret is nan"]
o += ["fn Math::Round(double)", "if $1 is nan => returns, ret is nan", "if $1 >= 4503599627370496.0, $1 is not nan => returns, ret == $1", "if $1 <= -4503599627370496.0, $1 is not nan => returns, ret == $1",
      "if $1 == 0.5, $1 is not nan => returns, ret == 0.0", "if $1 == 1.5, $1 is not nan => returns, ret == 2.0", "if $1 == 2.5, $1 is not nan => returns, ret == 2.0", "if $1 == -3.5, $1 is not nan => returns, ret == -4.0",
      "if $1 > 0.5, $1 < 1.0, $1 is not nan => returns, ret == 1.0", "if $1 > -0.5, $1 < 0.5, $1 is not nan => returns, ret == 0.0"]
for f, a in (("Floor", "2.0"), ("Ceiling", "3.0"), ("Truncate", "2.0")):
    o += ["fn Math::%s(double)" % f, "if $1 > 2.0, $1 < 3.0, $1 is not nan => returns, ret == %s" % a, "if $1 > -3.0, $1 < -2.0, $1 is not nan => returns, ret == -%s" % ("2.0" if f != "Floor" else "3.0"), "if $1 is nan => returns, ret is nan", "if $1 == 7.0, $1 is not nan => returns, ret == 7.0"]
o += ["fn Math::BitIncrement(double)", "if $1 is nan => returns, ret is nan", "if $1 is not nan, $1 == 1e999 => returns, ret == 1e999, ret is not nan", "if $1 is not nan, $1 < 1e999, $1 > 0.0 => returns, ret > $1, ret is not nan", "if $1 is not nan, $1 < 0.0, $1 > -1e999 => returns, ret > $1, ret is not nan",
      "if $1 is not nan, $1 == -1e999 => returns, ret > $1, ret is not nan", "if $1 is not nan, $1 == 0.0 => returns, ret > 0.0, ret is not nan"]
o += ["fn Math::BitDecrement(double)", "if $1 is nan => returns, ret is nan", "if $1 is not nan, $1 == -1e999 => returns, ret == -1e999, ret is not nan", "if $1 is not nan, $1 < 1e999, $1 > 0.0 => returns, ret < $1, ret is not nan", "if $1 is not nan, $1 < 0.0, $1 > -1e999 => returns, ret < $1, ret is not nan",
      "if $1 is not nan, $1 == 1e999 => returns, ret < $1, ret is not nan", "if $1 is not nan, $1 == 0.0 => returns, ret < 0.0, ret is not nan"]
o += ["fn Math::CopySign(double, double)", "if %s, $1 > 0.0, $2 > 0.0 => returns, ret == $1, ret is not nan" % nn, "if %s, $1 > 0.0, $2 < 0.0 => returns, ret == -$1, ret is not nan" % nn, "if %s, $1 < 0.0, $2 > 0.0 => returns, ret == -$1, ret is not nan" % nn,
      "if %s, $1 < 0.0, $2 < 0.0 => returns, ret == $1, ret is not nan" % nn]
o += ["fn Math::ILogB(double)", "if $1 is nan => returns, ret == 2147483647", "if $1 is not nan, $1 == 0.0 => returns, ret == -2147483648"]
Z = (("poszero", "negzero"))
for t in ("float", "double"):
    for f, r in (("Max", "poszero"), ("Min", "negzero")):
        o += ["fn Math::%s(%s, %s) #zeros" % (f, t, t), "if $1 is negzero, $2 is poszero => returns, ret is %s" % r, "if $1 is poszero, $2 is negzero => returns, ret is %s" % r,
              "if $1 is poszero, $2 is poszero => returns, ret is poszero", "if $1 is negzero, $2 is negzero => returns, ret is negzero"]
    o += ["fn Math::Abs(%s) #zeros" % t, "if $1 is negzero => returns, ret is poszero", "if $1 is poszero => returns, ret is poszero"]
    o += ["fn Math::Sign(%s) #zeros" % t, "if $1 is negzero => returns, ret == 0", "if $1 is poszero => returns, ret == 0"]
for f, r in (("MaxMagnitude", "poszero"), ("MinMagnitude", "negzero")):
    o += ["fn Math::%s(double, double) #zeros" % f, "if $1 is negzero, $2 is poszero => returns, ret is %s" % r, "if $1 is poszero, $2 is negzero => returns, ret is %s" % r]
    for z in Z:
        big = f == "MaxMagnitude"
        for c in ("> 0.0", "< 0.0"):
            o += ["if $1 is %s, $2 is not nan, $2 %s => returns, %s" % (z, c, "ret == $2" if big else "ret is " + z),
                  "if $2 is %s, $1 is not nan, $1 %s => returns, %s" % (z, c, "ret == $1" if big else "ret is " + z)]
for f in ("Round", "Floor", "Ceiling", "Truncate"):
    o += ["fn Math::%s(double) #zeros" % f] + ["if $1 is %s => returns, ret is %s" % (z, z) for z in Z]
    if f in ("Round",):
        o += ["if $1 is not nan, $1 > -0.5, $1 < 0.0 => returns, ret is negzero", "if $1 is not nan, $1 > 0.0, $1 < 0.5 => returns, ret is poszero", "if $1 is not nan, $1 == -0.5 => returns, ret is negzero", "if $1 is not nan, $1 == 0.5 => returns, ret is poszero"]
    if f in ("Ceiling", "Truncate"):
        o += ["if $1 is not nan, $1 > -1.0, $1 < 0.0 => returns, ret is negzero"]
    if f in ("Floor", "Truncate"):
        o += ["if $1 is not nan, $1 > 0.0, $1 < 1.0 => returns, ret is poszero"]
for f, a, b in (("BitIncrement", "==", "4.9406564584124654e-324"), ("BitDecrement", "==", "-4.9406564584124654e-324")):
    o += ["fn Math::%s(double) #zeros" % f] + ["if $1 is %s => returns, ret == %s, ret is not nan" % (z, b) for z in Z]
o += ["fn Math::BitIncrement(double) #zeros2", "if $1 is not nan, $1 == -4.9406564584124654e-324 => returns, ret is negzero", "fn Math::BitDecrement(double) #zeros2", "if $1 is not nan, $1 == 4.9406564584124654e-324 => returns, ret is poszero"]
o += ["fn Math::CopySign(double, double) #zeros"]
for z in Z:
    s = "negzero" if z == "negzero" else "poszero"
    o += ["if $1 is %s, $2 is %s => returns, ret is %s" % (w, z, s) for w in Z]
    o += ["if $1 is not nan, $1 > 0.0, $2 is %s => returns, ret == %s$1" % (z, "-" if z == "negzero" else ""), "if $1 is not nan, $1 < 0.0, $2 is %s => returns, ret == %s$1" % (z, "-" if z == "poszero" else "")]
    o += ["if $1 is %s, $2 is not nan, $2 > 0.0 => returns, ret is poszero" % z, "if $1 is %s, $2 is not nan, $2 < 0.0 => returns, ret is negzero" % z]
o += ["fn Math::Divide(double, double) #zeros"]
for z in Z:
    for c in (">", "<"):
        inf = "1e999" if (z == "poszero") == (c == ">") else "-1e999"
        o += ["if $2 is %s, $1 is not nan, $1 %s 0.0 => returns, ret == %s, ret is not nan" % (z, c, inf),
              "if $1 is %s, $2 is not nan, $2 %s 0.0 => returns, ret is %s" % (z, c, "poszero" if inf == "1e999" else "negzero")]
    for w in Z:
        o += ["if $1 is %s, $2 is %s => returns, ret is nan" % (z, w)]
o += ["fn Math::ILogB(double) #zeros"] + ["if $1 is %s => returns, ret == -2147483648" % z for z in Z]
open(D + "/math.spec", "w").write("\n".join(o) + "\n")
