"""Writes spec/boxed_convert.spec and spec/boxed_compare.spec (contracts of the boxed primitive types)."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
INT = {"SByte": ("signed char", 8, 1), "Byte": ("unsigned char", 8, 0), "Int16": ("short", 16, 1), "UInt16": ("unsigned short", 16, 0), "Int32": ("int", 32, 1),
       "UInt32": ("unsigned int", 32, 0), "Int64": ("long", 64, 1), "UInt64": ("unsigned long", 64, 0), "Char": ("wchar_t", 32, 1)}
FLT = {"Single": "float", "Double": "double"}
CODE = dict(Object=1, Boolean=2, Char=3, SByte=4, Byte=5, Int16=6, UInt16=7, Int32=8, UInt32=9, Int64=10, UInt64=11, Single=12, Double=13, DateTime=15, TimeSpan=16, String=17)
OTHER = ["Boolean", "Char", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double"]


def rng(t):
    c, b, s = INT[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def num(n):
    return str(n) if n >= 0 else "0 - %d" % -n


conv, cmp = ["# Boxed numbers: what conversion yields (generated by tools/mkboxed.py)"], ["# Boxed numbers: ordering, equality and type codes (generated by tools/mkboxed.py)"]
for t in list(INT) + ["Boolean", "Single", "Double"]:
    ctype = INT[t][0] if t in INT else FLT.get(t, "bool")
    V = t + "Value"
    conv.append("fn %s::%s(%s)" % (V, V, ctype))
    if t == "Boolean":
        conv.append("if $1 == 1 => returns, this'.value == 1\nif $1 == 0 => returns, this'.value == 0")
    elif t in FLT:
        conv.append("if $1 is not nan => returns, this'.value == $1\nif $1 is nan => returns, this'.value is nan")
    else:
        conv.append("always => returns, this'.value == $1")
    conv.append("fn %s::GetRawDataType()\nalways => returns, ret == %d" % (V, CODE[t]))
    for u in INT:
        if t == "Char" and u == "Char":
            conv.append("fn CharValue::get_AsChar()\nalways => returns, ret == this.value")
            continue
        if u == "Char" and t in ("Boolean", "Single", "Double"):
            conv.append("fn %s::get_AsChar()\nalways => throws InvalidCastException" % V if False else "")
            continue
        if t in FLT and u in ("Byte", "SByte"):
            continue
        conv.append("fn %s::get_As%s()" % (V, u))
        lo, hi = rng(u)
        if t == "Boolean":
            conv.append("if this.value == 1 => returns, ret == 1\nif this.value == 0 => returns, ret == 0")
        elif t in FLT:
            top = "%d.0" % (1 << min(20, INT[u][1] - 1))
            conv.append("if this.value == 0.0, this.value is not nan => returns, ret == 0\nif this.value == 1.0, this.value is not nan => returns, ret == 1\nif this.value >= 2.0, this.value < 100.0, this.value is not nan => returns, ret >= 2, ret <= 99\nif this.value > 99.5, this.value < 100.5, this.value is not nan => returns, ret >= 99, ret <= 100")
            l, h = rng(u)
            conv.append("if this.value >= %d.0, this.value is not nan => throws OverflowException\nif this.value <= -%d.0, this.value is not nan => throws OverflowException\nif this.value is nan => throws OverflowException" % (h + 1, (1 - l) if l > -(1 << 31) * 2 else (1 << 63) + (1 << 41)))
            if t == "Double" and INT[u][1] <= 32:
                conv.append("if this.value == %d.0, this.value is not nan => returns, ret == %d" % (h, h))
            if l < 0:
                conv.append("if this.value == -%d.0, this.value is not nan => returns, ret == -%d" % (-l, -l))
            if l < 0:
                conv.append("if this.value > -100.5, this.value < -99.0, this.value is not nan => returns, ret >= -100, ret <= -99")
        else:
            l, h = rng(t)
            pre = []
            if l < lo:
                pre.append("this.value >= %s" % num(lo))
            if h > hi:
                pre.append("this.value <= %s" % num(hi))
            conv.append(("if %s => returns, ret == this.value" % ", ".join(pre)) if pre else "always => returns, ret == this.value")
            if pre:
                conv.append("always => returns, ret >= %s, ret <= %s" % (num(lo), num(hi)))
                # one step outside the range keeps the low bits
                m = hi - lo + 1
                if h > hi:
                    conv.append("if this.value > %s, this.value <= %s => returns, ret == this.value - %d" % (num(hi), num(min(h, hi + m)), m))
                if l < lo and INT[t][1] > INT[u][1]:
                    conv.append("if this.value < %s, this.value >= %s => returns, ret == this.value + %d" % (num(lo), num(max(l, lo - m)), m))
                elif l < lo:
                    conv.append("if this.value < %s => returns, ret == this.value + %d" % (num(lo), m))
    if t != "Boolean" and not (t == "Char"):
        for u in FLT:
            conv.append("fn %s::get_As%s()" % (V, u))
            if t in FLT:
                if t == u or t == "Single":
                    conv.append("if this.value is not nan => returns, ret == this.value\nif this.value is nan => returns, ret is nan")
                else:
                    conv.append("if this.value == 0.0, this.value is not nan => returns, ret == 0.0\nif this.value is nan => returns, ret is nan\nif this.value >= 1.0, this.value <= 1000.0, this.value is not nan => returns, ret >= 1.0, ret <= 1000.0")
            else:
                conv.append("if this.value == 0 => returns, ret == 0.0\nif this.value == 7 => returns, ret == 7.0\nif this.value > 3 => returns, ret >= 4.0\nif this.value >= 0, this.value < 100 => returns, ret >= 0.0, ret <= 99.0")
                if INT[t][2]:
                    conv.append("if this.value < 0 => returns, ret < 0.0")
                else:
                    conv.append("always => returns, ret >= 0.0")
    if t not in FLT and t != "Char":
        conv.append("fn %s::get_AsBoolean()" % V)
        if t == "Boolean":
            conv.append("if this.value == 1 => returns, ret == 1\nif this.value == 0 => returns, ret == 0")
        else:
            conv.append("if this.value == 0 => returns, ret == 0\nif this.value > 0 => returns, ret == 1")
            if INT[t][2]:
                conv.append("if this.value < 0 => returns, ret == 1")
    # comparison
    for who, val in (("%s" % ctype, "$1"), ("Object*", "$1.value")):
        isa = "" if who != "Object*" else "$1 isa %s, " % V
        for f in ("CompareTo", "Equals"):
            cmp.append("fn %s::%s(%s)" % (V, f, who))
            if who == "Object*":
                cmp.append("if $1 is null => returns, ret %s" % ("> 0" if f == "CompareTo" else "== 0"))
                for o in OTHER:
                    if o != t:
                        cmp.append("if $1 isa %sValue => %s" % (o, "throws ArgumentException" if f == "CompareTo" else "returns, ret == 0"))
                for o in ("String", "StringBuilder", "Array", "DateTimeValue", "TimeSpanValue"):
                    cmp.append("if $1 isa %s => %s" % (o, "throws ArgumentException" if f == "CompareTo" else "returns, ret == 0"))
            nn = ""
            if t in FLT:
                arg = val
                nn = "this.value is not nan, %s is not nan, " % arg
                a, b, c, d = ("ret < 0", "ret > 0", "ret == 0", "") if f == "CompareTo" else ("ret == 0", "ret == 0", "ret == 1", "")
                cmp.append("if %sthis.value is nan, %s is nan => returns, %s" % (isa, arg, c))
                cmp.append("if %sthis.value is nan, %s is not nan => returns, %s" % (isa, arg, a))
                cmp.append("if %sthis.value is not nan, %s is nan => returns, %s" % (isa, arg, b))
            if f == "CompareTo":
                cmp.append("if %s%sthis.value < %s => returns, ret < 0" % (isa, nn, val))
                cmp.append("if %s%sthis.value > %s => returns, ret > 0" % (isa, nn, val))
                cmp.append("if %s%sthis.value == %s => returns, ret == 0" % (isa, nn, val))
            else:
                cmp.append("if %s%sthis.value != %s => returns, ret == 0" % (isa, nn, val))
                cmp.append("if %s%sthis.value == %s => returns, ret == 1" % (isa, nn, val))
open(os.path.join(D, "boxed_convert.spec"), "w").write("\n".join(x for x in conv if x) + "\n")
open(os.path.join(D, "boxed_compare.spec"), "w").write("\n".join(x for x in cmp if x) + "\n")
