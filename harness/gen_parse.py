# Writes harness/parse.cpp: text handed to the parsers one symbolic character at a time.
T = {"SByte": 3, "Byte": 3, "Int16": 5, "UInt16": 5, "Int32": 10, "UInt32": 10, "Int64": 19, "UInt64": 20}
SPANS = range(1, 27)
FLOATS = range(0, 14)
BOOLS = range(0, 10)
def lengths(t):
    return sorted({0, 1, 2, 3, T[t], T[t] + 1, T[t] + 2})
def text(n):
    return "String* s = new String(L' ', %d); " % n + "".join("*s->Address(%d) = c%d; " % (i, i) for i in range(n))
if __name__ == "__main__":
    import os
    o = ["// Written by gen_parse.py. Never executed: analysed together with the library by absint against spec/parse.py.",
         '#include "DotnetTypes.h"', "using namespace DotnetLibrary;", "namespace Laws", "{"]
    for t in T:
        for n in lengths(t):
            ps = ["Char c%d" % i for i in range(n)]
            body = "Char t[] = { %s }; String* s = new String(t, 0, %d); " % (", ".join(["c%d" % i for i in range(n)] + ["0"]), n)
            o.append("\t%s Parse%s(%s) { %sreturn %sValue::Parse(s); }" % (t, t, ", ".join(ps), body, t))
            o.append("\tBoolean Try%s(%s) { %sreturn %sValue::TryParse(s, r); }" % (t, ", ".join([t + "& r"] + ps), body, t))
        o.append("\t%s Text%s(%s v) { %sValue x(v); return %sValue::Parse(x.ToString()); }" % (t, t, t, t, t))
    for t in ("Char",):
        o.append("\t%s Text%s(%s v) { %sValue x(v); return %sValue::Parse(x.ToString()); }" % (t, t, t, t, t))
    for n in FLOATS:
        ps = ["Char c%d" % i for i in range(n)]
        for t in ("Double", "Single"):
            o.append("\t%s Parse%s(%s) { %sreturn %sValue::Parse(s); }" % (t, t, ", ".join(ps), text(n), t))
            o.append("\tBoolean Try%s(%s) { %sreturn %sValue::TryParse(s, r); }" % (t, ", ".join([t + "& r"] + ps), text(n), t))
    for n in BOOLS:
        o.append("\tBoolean ParseBoolean(%s) { %sreturn BooleanValue::Parse(s); }" % (", ".join("Char c%d" % i for i in range(n)), text(n)))
    for n in SPANS:
        ps = ["Char c%d" % i for i in range(n)]
        body = "Char t[] = { %s }; String* s = new String(t, 0, %d); " % (", ".join(["c%d" % i for i in range(n)] + ["0"]), n)
        o.append("\tTimeSpan ParseTimeSpan(%s) { %sreturn TimeSpanValue::Parse(s); }" % (", ".join(ps), body))
        o.append("\tBoolean TryTimeSpan(%s) { %sreturn TimeSpanValue::TryParse(s, r); }" % (", ".join(["TimeSpan& r"] + ps), body))
    o.append("\tTimeSpan TextTimeSpan(TimeSpan v) { TimeSpanValue x(v); return TimeSpanValue::Parse(x.ToString()); }")
    o.append("}")
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "parse.cpp"), "w").write("\n".join(o) + "\n")
