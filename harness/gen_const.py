#!/usr/bin/env python3
"""Published constants of the library: one function per constant (never executed), and what .NET documents for it.

The expected values are computed here from the definition of the type, not read from the library."""
import math, os, struct, sys

INT = {"SByte": (8, 1), "Byte": (8, 0), "Int16": (16, 1), "UInt16": (16, 0), "Int32": (32, 1), "UInt32": (32, 0), "Int64": (64, 1), "UInt64": (64, 0)}
OPS = []  # (name, return type, expression, expectation)


def text(s):
    return ", ".join(["ret.length == %d" % len(s)] + ["ret[%d] == %d" % (i, ord(c)) for i, c in enumerate(s)])


for t, (bits, signed) in INT.items():
    hi, lo = ((1 << (bits - 1)) - 1, -(1 << (bits - 1))) if signed else ((1 << bits) - 1, 0)
    OPS.append((t + "Max", t, t + "Value::MaxValue", "ret == %d" % hi))
    OPS.append((t + "Min", t, t + "Value::MinValue", "ret == %d" % lo))
OPS += [("CharMax", "Char", "CharValue::MaxValue", "ret == 65535"), ("CharMin", "Char", "CharValue::MinValue", "ret == 0")]
DMAX = struct.unpack("<d", struct.pack("<Q", 0x7FEFFFFFFFFFFFFF))[0]
DEPS = struct.unpack("<d", struct.pack("<Q", 1))[0]
SMAX = struct.unpack("<f", struct.pack("<I", 0x7F7FFFFF))[0]
SEPS = struct.unpack("<f", struct.pack("<I", 1))[0]
for t, mx, eps in (("Double", DMAX, DEPS), ("Single", SMAX, SEPS)):
    for n, v in (("MaxValue", mx), ("MinValue", -mx), ("Epsilon", eps), ("PositiveInfinity", math.inf), ("NegativeInfinity", -math.inf)):
        OPS.append((t + n, t, "%sValue::%s" % (t, n), "ret == %r" % v if not math.isinf(v) else "ret > %r" % DMAX if v > 0 else "ret < %r" % -DMAX))
    OPS.append((t + "NaN", t, t + "Value::NaN", "ret is nan"))
OPS += [("MathPI", "Double", "Math::PI", "ret == %r" % math.pi), ("MathE", "Double", "Math::E", "ret == %r" % math.e)]
days = 9999 * 365 + 9999 // 4 - 9999 // 100 + 9999 // 400
DAY = 24 * 60 * 60 * 10 ** 7
OPS += [("DateTimeMax", "Int64", "DateTimeValue(DateTimeValue::MaxValue).get_Ticks()", "ret == %d" % (days * DAY - 1)),
        ("DateTimeMin", "Int64", "DateTimeValue(DateTimeValue::MinValue).get_Ticks()", "ret == 0"),
        ("TimeSpanMax", "Int64", "TimeSpanValue(TimeSpanValue::MaxValue).get_Ticks()", "ret == %d" % ((1 << 63) - 1)),
        ("TimeSpanMin", "Int64", "TimeSpanValue(TimeSpanValue::MinValue).get_Ticks()", "ret == %d" % -(1 << 63)),
        ("TimeSpanZero", "Int64", "TimeSpanValue(TimeSpanValue::Zero).get_Ticks()", "ret == 0")]
for n, v in (("Millisecond", 10 ** 4), ("Second", 10 ** 7), ("Minute", 60 * 10 ** 7), ("Hour", 3600 * 10 ** 7), ("Day", DAY)):
    OPS.append(("TicksPer" + n, "Int64", "TimeSpanValue::TicksPer" + n, "ret == %d" % v))
OPS += [("StringEmpty", "String*", "String::Empty", text("")), ("TrueString", "String*", "BooleanValue::TrueString", text("True")),
        ("FalseString", "String*", "BooleanValue::FalseString", text("False")), ("LittleEndian", "Boolean", "BitConverter::IsLittleEndian", "ret == 1")]


def spec():
    return [x for n, _, _, e in OPS for x in ("fn Laws::Const%s()" % n, "always => returns, " + e)]


if __name__ == "__main__":
    o = ["// Written by gen_const.py. Never executed: analysed together with the library by absint against spec/constants.py.",
         '#include "DotnetTypes.h"', "using namespace DotnetLibrary;", "namespace Laws", "{"]
    o += ["\t%s Const%s() { return %s; }" % (t, n, x) for n, t, x, _ in OPS]
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.cpp"), "w").write("\n".join(o + ["}"]) + "\n")
