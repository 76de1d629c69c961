# Writes harness/same.cpp and, imported by spec/same.py, its specification: boxes of different types with the same number, or even the same text, are different objects.
import os
T = "Char SByte Byte Int16 UInt16 Int32 UInt32 Int64 UInt64 Single Double".split()
def ops():
    for a in T + ["String"]:
        for b in T + ["String"]:
            yield a, b
def make(t, var, shift):
    if t == "String":
        return "String* %s = new String((Char) (v + 48), 1);" % var
    return "%sValue b_%s((%s) (v%s)); Object* %s = &b_%s;" % (t, var, t, " + 48" if t == "Char" and shift else "", var, var)
def source():
    o = ["// Written by harness/gen_same.py.", '#include "DotnetTypes.h"', "using namespace DotnetLibrary;", "namespace Laws", "{"]
    for a, b in ops():
        for k in (0, 1):
            if k and "Char" not in (a, b):
                continue
            o.append("\tBoolean Same%d_%s_%s(Int32 v) { %s %s return Object::Equals((Object*) x, (Object*) y); }" % (k, a, b, make(a, "x", k), make(b, "y", k)))
    o.append("}")
    return "\n".join(o) + "\n"
def spec():
    o = []
    for a, b in ops():
        for k in (0, 1):
            if k and "Char" not in (a, b):
                continue
            o.append("fn Laws::Same%d_%s_%s(int)" % (k, a, b))
            o.append("if %s => returns, ret == %d" % ("$1 == 7" if a == b and a in ("Single", "Double") else "$1 >= 0, $1 <= 9", a == b))
    return o
if __name__ == "__main__":
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "same.cpp"), "w").write(source())
