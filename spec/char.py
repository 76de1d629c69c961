# Classification of characters: exact for every ASCII character; digits and the null character included.
import sys
SYM = [ord(c) for c in "$+<=>^`|~"]
def cls(pred):
    """maximal runs of 0..127 on which pred is constant"""
    o, i = [], 0
    while i < 128:
        j = i
        while j + 1 < 128 and pred(j + 1) == pred(i): j += 1
        o.append((i, j, pred(i))); i = j + 1
    return o
up = lambda c: 65 <= c <= 90
lo = lambda c: 97 <= c <= 122
dg = lambda c: 48 <= c <= 57
P = {"IsControl": lambda c: c < 32 or c == 127, "IsDigit": dg, "IsNumber": dg, "IsLetter": lambda c: up(c) or lo(c), "IsLetterOrDigit": lambda c: up(c) or lo(c) or dg(c),
     "IsLower": lo, "IsUpper": up, "IsPunctuation": lambda c: 33 <= c <= 126 and not (up(c) or lo(c) or dg(c)) and c not in SYM, "IsSeparator": lambda c: c == 32,
     "IsWhiteSpace": lambda c: c == 32 or 9 <= c <= 13}
out = []
for f, p in P.items():
    out.append("fn CharValue::%s(wchar_t)" % f)
    for a, b, v in cls(p):
        out.append("if $1 >= %d, $1 <= %d => returns, ret == %d" % (a, b, v))
    if f in ("IsSeparator", ):
        for c in (0xA0, 0x1680, 0x2000, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000): out.append("if $1 == %d => returns, ret == 1" % c)
    if f in ("IsDigit", "IsNumber"):
        out.append("if $1 >= 128 => returns, ret == 0")
    out.append("fn CharValue::%s(String*,int)" % f)
    out.append("if $1 is null => throws ArgumentNullException")
    out.append("if $1 is not null, $2 >= $1.length => throws ArgumentOutOfRangeException")
    out.append("if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException/IndexOutOfRangeException")
    out.append("if $1 is not null, $2 >= 0, $2 < $1.length => returns")
out += ["fn CharValue::GetNumericValue(wchar_t)", ] + ["if $1 == %d => returns, ret == %d.0" % (48 + d, d) for d in range(10)] + ["if $1 >= 58 => returns, ret == -1.0", "if $1 >= 0, $1 <= 47 => returns, ret == -1.0"]
out += ["fn CharValue::GetNumericValue(String*,int)", "if $1 is null => throws ArgumentNullException", "if $1 is not null, $2 >= $1.length => throws ArgumentOutOfRangeException",
        "if $1 is not null, $2 < 0 => throws ArgumentOutOfRangeException/IndexOutOfRangeException", "if $1 is not null, $2 >= 0, $2 < $1.length => returns"]
for f, a, b, d in (("ToUpper", 97, 122, -32), ("ToLower", 65, 90, 32)):
    out += ["fn CharValue::%s(wchar_t)" % f, "if $1 >= 0, $1 < %d => returns, ret == $1" % a, "if $1 >= %d, $1 <= %d => returns, ret == $1 %s %d" % (a, b, "-" if d < 0 else "+", abs(d)), "if $1 > %d, $1 <= 127 => returns, ret == $1" % b]
print("\n".join(out))
