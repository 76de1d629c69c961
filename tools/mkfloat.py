"""Writes spec/float_class.spec."""
import os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
o = ["# Classification of floating point numbers (generated by tools/mkfloat.py)"]
for t, V, mn, mx, ep in (("double", "Double", "2.2250738585072014e-308", "1.7976931348623157e308", "4.9406564584124654e-324"), ("float", "Single", "1.1754943508222875e-38", "3.4028234663852886e38", "1.401298464324817e-45")):
    parts = {  # class: (conditions, nan, inf, neginf, normal, subnormal, negative)
        "nan": ("$1 is nan", 1, 0, 0, 0, 0, None), "+inf": ("$1 is not nan, $1 == 1e999", 0, 1, 0, 0, 0, 0), "-inf": ("$1 is not nan, $1 == -1e999", 0, 1, 1, 0, 0, 1),
        "+normal": ("$1 is not nan, $1 >= %s, $1 <= %s" % (mn, mx), 0, 0, 0, 1, 0, 0), "-normal": ("$1 is not nan, $1 <= -%s, $1 >= -%s" % (mn, mx), 0, 0, 0, 1, 0, 1),
        "+sub": ("$1 is not nan, $1 >= %s, $1 < %s" % (ep, mn), 0, 0, 0, 0, 1, 0), "-sub": ("$1 is not nan, $1 <= -%s, $1 > -%s" % (ep, mn), 0, 0, 0, 0, 1, 1),
        "zero": ("$1 is not nan, $1 == 0.0", 0, 0, 0, 0, 0, None),
        "+zero": ("$1 is poszero", 0, 0, 0, 0, 0, 0), "-zero": ("$1 is negzero", 0, 0, 0, 0, 0, 1)}
    for f in ("IsNaN", "IsFinite", "IsInfinity", "IsNegative", "IsNegativeInfinity", "IsNormal", "IsPositiveInfinity", "IsSubnormal"):
        o.append("fn %sValue::%s(%s)" % (V, f, t))
        for k, (c, nan, inf, ninf, nor, sub, neg) in parts.items():
            v = {"IsNaN": nan, "IsFinite": int(not nan and not inf), "IsInfinity": inf, "IsNegative": neg, "IsNegativeInfinity": ninf, "IsNormal": nor, "IsPositiveInfinity": int(inf and not ninf), "IsSubnormal": sub}[f]
            if v is not None:
                o.append("if %s => returns, ret == %d" % (c, v))
open(D + "/float_class.spec", "w").write("\n".join(o) + "\n")
