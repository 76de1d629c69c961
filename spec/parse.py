# Specification of reading and writing numbers as text. Characters are free within their class, so each case stands for every text of its shape.
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from gen_parse import T, lengths
LIM = {"SByte": (-2**7, 2**7 - 1), "Byte": (0, 2**8 - 1), "Int16": (-2**15, 2**15 - 1), "UInt16": (0, 2**16 - 1), "Int32": (-2**31, 2**31 - 1), "UInt32": (0, 2**32 - 1), "Int64": (-2**63, 2**63 - 1), "UInt64": (0, 2**64 - 1)}
C = {"SByte": "signed char", "Byte": "unsigned char", "Int16": "short", "UInt16": "unsigned short", "Int32": "int", "UInt32": "unsigned int", "Int64": "long", "UInt64": "unsigned long", "Char": "wchar_t", "Boolean": "bool"}
out = []
def dig(i): return "$%d >= 48, $%d <= 57" % (i, i)
def num(ix):
    k = len(ix)
    return " + ".join("%d*$%d" % (10 ** (k - 1 - j), i) for j, i in enumerate(ix)) + " - %d" % (48 * sum(10 ** j for j in range(k)))
def cases(t, n, first, good, over, bad):
    lo, hi = LIM[t]
    ix = [first + i for i in range(n)]
    o = []
    def number(pre, ds, neg):
        c = list(pre) + [dig(i) for i in ds]
        v = num(ds); big = 10 ** len(ds) - 1
        m = -lo if neg else hi
        if len(ds) >= 20 and len(ds) > T[t] and not (neg and lo == 0):
            k = len(ds) - T[t]
            c += ["$%d == 48" % d for d in ds[:k]]
            ds = ds[k:]; v = num(ds); big = 10 ** len(ds) - 1
        if neg and lo == 0:
            o.append("if %s, %s > 0 => %s" % (", ".join(c), v, over))
            o.append("if %s => %s" % (", ".join(c + ["$%d == 48" % d for d in ds]), good("0", [], False))); return
        if big > m:
            o.append("if %s, %s > %d => %s" % (", ".join(c), v, m, over))
            c = c + ["%s <= %d" % (v, m)]
        o.append("if %s => %s" % (", ".join(c), good("-(%s)" % v if neg else v, ds, neg)))
    def wrong(pre, ds):
        o.append("if %s => %s" % (", ".join(list(pre) + [dig(i) for i in ds]), bad))
    if n == 0: return ["always => " + bad]
    number([], ix, False)
    for b in ("$%d >= 33, $%d <= 42", "$%d == 44", "$%d == 46", "$%d == 47", "$%d >= 58, $%d <= 127", "$%d >= 1, $%d <= 8", "$%d >= 14, $%d <= 31"):
        for j in (0, n // 2, n - 1):
            wrong([b.replace("%d", str(ix[j]))], ix[:j] + ix[j + 1:])
    for sg in (43, 45):
        if n == 1: wrong(["$%d == %d" % (ix[0], sg)], [])
        else:
            number(["$%d == %d" % (ix[0], sg)], ix[1:], sg == 45)
            wrong(["$%d == %d" % (ix[-1], sg)], ix[:-1])
        if n > 2: wrong(["$%d == %d" % (ix[0], sg), "$%d >= 43, $%d <= 45" % (ix[1], ix[1])], ix[2:])
    for w in ("$%d == 32", "$%d >= 9, $%d <= 13"):
        if n == 1: wrong([w.replace("%d", str(ix[0]))], [])
        else:
            number([w.replace("%d", str(ix[0]))], ix[1:], False)
            number([w.replace("%d", str(ix[-1]))], ix[:-1], False)
        if n > 2:
            number([w.replace("%d", str(ix[0])), "$%d == 45" % ix[1]], ix[2:], True)
            wrong([w.replace("%d", str(ix[1]))], [ix[0]] + ix[2:])
            wrong(["$%d == 45" % ix[0], w.replace("%d", str(ix[1]))], ix[2:])
    return o
for t in T:
    lo, hi = LIM[t]
    for n in lengths(t):
        p = ["wchar_t"] * n
        def val(dst):
            def f(v, ds, neg):
                if neg: v = "%d" % (48 * sum(10 ** j for j in range(len(ds)))) + "".join(" - %d*$%d" % (10 ** (len(ds) - 1 - j), i) for j, i in enumerate(ds))
                return "%s == %s" % (dst, v)
            return f
        out.append("fn Laws::Parse%s(%s)" % (t, ", ".join(p)))
        g = val("ret")
        out += cases(t, n, 1, lambda v, ds, neg: "returns, " + g(v, ds, neg), "throws OverflowException", "throws FormatException")
        out.append("fn Laws::Try%s(%s)" % (t, ", ".join([C[t] + "&"] + p)))
        h = val("$1'")
        out += cases(t, n, 2, lambda v, ds, neg: "returns, ret == 1, " + h(v, ds, neg), "returns, ret == 0, $1' == 0", "returns, ret == 0, $1' == 0")
    # the limits themselves, written out
    for v in sorted({lo, hi, lo - 1, hi + 1, hi - 1, lo + 1, hi // 10, hi + 10}):
        x = str(v); n = len(x)
        if n not in lengths(t): continue
        good = lo <= v <= hi
        if lo == 0 and v < 0: good = False
        out.append("fn Laws::Parse%s(%s) #%s" % (t, ", ".join(["wchar_t"] * n), x))
        out.append("if %s => %s" % (", ".join("$%d == %d" % (i + 1, ord(x[i])) for i in range(n)), "returns, ret == %d" % v if good else "throws OverflowException"))
        out.append("fn Laws::Try%s(%s) #%s" % (t, ", ".join([C[t] + "&"] + ["wchar_t"] * n), x))
        out.append("if %s => %s" % (", ".join("$%d == %d" % (i + 2, ord(x[i])) for i in range(n)), "returns, ret == 1, $1' == %d" % v if good else "returns, ret == 0, $1' == 0"))
    out.append("fn Laws::Text%s(%s)" % (t, C[t]))
    k = 1
    while k <= max(hi, -lo):
        a, b = (0 if k == 1 else k), min(k * 10 - 1, hi)
        if a <= b: out.append("if $1 >= %d, $1 <= %d => returns, ret == $1" % (a, b))
        a, b = max(-(k * 10 - 1), lo), -k
        if a <= b: out.append("if $1 >= %d, $1 <= %d => returns, ret == $1" % (a, b))
        k *= 10
# time spans: H hour tens, h hour, M/S tens of minutes and seconds, m/s, d day digit, f fraction digit, everything else stands for itself
def span(shape, first):
    cond, terms, const, days, fr = [], [], 0, [], 0
    neg = shape.startswith("-")
    hours = []
    for i, c in enumerate(shape):
        n = "$%d" % (first + i)
        if c in "HhMmSsdf": cond.append("%s >= 48, %s <= %d" % (n, n, 53 if c in "MS" else 57))
        else: cond.append("%s == %d" % (n, ord(c)))
        if c == "d": days.append(n)
        if c in "Hh": hours.append(n)
        w = {"H": 10 * 36000000000, "h": 36000000000, "M": 6000000000, "m": 600000000, "S": 100000000, "s": 10000000}.get(c)
        if c == "f": w = 10 ** (6 - fr); fr += 1
        if w: terms.append((w, n)); const += 48 * w
    for k, n in enumerate(reversed(days)):
        w = 864000000000 * 10 ** k; terms.append((w, n)); const += 48 * w
    if len(hours) == 2: cond.append("10*%s + %s <= %d" % (hours[0], hours[1], 528 + 23))
    if neg: return cond, " - ".join([str(const)] + ["%d*%s" % t for t in terms])
    return cond, " + ".join("%d*%s" % t for t in terms) + " - %d" % const
GOOD = ["d", "dd", "ddd", "ddddddd", "h:m", "Hh:Mm", "h:Mm:Ss", "Hh:Mm:Ss", "H:m:s".replace("H", "h"), "d.Hh:Mm", "d.Hh:Mm:Ss", "d:Hh:Mm:Ss", "ddd.Hh:Mm:Ss", "ddddddd.Hh:Mm:Ss", "Hh:Mm:Ss.f", "Hh:Mm:Ss.ff", "Hh:Mm:Ss.fff", "Hh:Mm:Ss.ffffff", "Hh:Mm:Ss.fffffff", "d.Hh:Mm:Ss.fffffff", "dd:Hh:Mm:Ss.fff", "ddddddd.Hh:Mm:Ss.fffffff"]
BAD = ["-", ":", ".", "x", "d:", "d.", "d.d", "x:Mm", "Hh:Mm:", "Hh:Mm:Ss:", "Hh:Mm:Ss.", "Hh:Mm:Ss.ffffffff", "Hh:Mm:Ss.fx", "Hh:Mm:Ssx", "Hhx", "Hh::Mm", "Hh:x", "d.Hh:Mm:Ss:s", "d:Hh:Mm:Ss:s", "Hh:Mmm", "--d", "d-", "Hh:-m", "+d"]
for sh in GOOD + ["-" + g for g in GOOD] + BAD:
    p = ["wchar_t"] * len(sh)
    bad = sh in BAD
    for first, sig, res in ((1, "fn Laws::ParseTimeSpan(%s) #%s" % (", ".join(p), sh), "returns, ret.value == %s"), (2, "fn Laws::TryTimeSpan(%s) #%s" % (", ".join(["TimeSpan&"] + p), sh), "returns, ret == 1, $1'.value == %s")):
        c, v = span(sh, first)
        if bad: res = "throws FormatException" if first == 1 else "returns, ret == 0, $1'.value == 0"
        out += [sig, "if %s => %s" % (", ".join(c), res if bad else res % v)]
# every time span survives the way through its text: sign, days by number of digits, time of day, fraction by number of digits
out.append("fn Laws::TextTimeSpan(TimeSpan)")
for a, b in [(0, 0)] + [(10 ** k, min(10 ** (k + 1) - 1, 10675199)) for k in range(8)]:
    for c, d in [(0, 0)] + [(10 ** k, 10 ** (k + 1) - 1) for k in range(7)]:
        for sg in "+-":
            t = (" %s " % sg).join(["864000000000*%d", "36000000000*%h", "600000000*%m", "10000000*%s", "%f"])
            out.append("if $1.value == %s%s, %%d >= %d, %%d <= %d, %%h >= 0, %%h <= 23, %%m >= 0, %%m <= 59, %%s >= 0, %%s <= 59, %%f >= %d, %%f <= %d => returns, ret.value == $1.value" % ("" if sg == "+" else "-", t, a, b, c, d))
# numbers with a point and an exponent. d digit, z digit but not 0, w white space, e exponent mark, everything else stands for itself
def shape(sh, first):
    c = []
    for i, x in enumerate(sh):
        n = "$%d" % (first + i)
        if x == "d": c.append("%s >= 48, %s <= 57" % (n, n))
        elif x == "z": c.append("%s >= 49, %s <= 57" % (n, n))
        elif x == "w": c.append("%s >= 9, %s <= 13" % (n, n))
        else: c.append("%s == %d" % (n, ord(x)))
    return c
import struct
def single(v):
    try: return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError: return float("inf") if v > 0 else float("-inf")
def lit(v): return ("-" if v < 0 else "") + "1e999" if v in (float("inf"), float("-inf")) else repr(float(v))
FGOOD = ["d", "dd", "zddddd", "-d", "+d", "-zd", ".d", "d.", "d.d", "zd.dd", "-d.d", "+.d", "ded", "dEd", "de+d", "de-d", "dE-dd", "z.ded", "-d.dE-d", ".de+d", "d.ed", " d", "d ", "wd", "dw", " -d ", "w.dw", "  d.d  ", "wded w"]
FBAD = ["", " ", "w", ".", "-", "+", "-.", "--d", "+-d", "- d", "-wd", "d-", "d+", "d d", "dwd", "d.d.", "d..", "d.d.d", "e", "ed", "-ed", ".e", ".ed", "de", "dE", "de+", "de-", "de +", "d e", "de d", "ded.", "ded.d", "deded", "de--d", "d,ddd", "d.d-d", "d-d", "d%", "$d", "0x", "0X", "0xd", "0Xd", "-0xd", "+0Xd", " 0xd", "zxd", "d0xd", "0xA", "d_d", "ddf", "ddx", "dL"]
STRAY = [(1, 8), (14, 31), (33, 42), (44, 44), (47, 47), (58, 68), (70, 72), (74, 77), (79, 87), (89, 100), (102, 104), (106, 109), (111, 119), (121, 127), (33, 100)]
TEXTS = ["0", "1", "-1", "0.5", "0.25", "-2.5", "12.75", "1e3", "1E3", "1e+3", "1e-2", "-1.5e2", "0.1", "1e10", "16777216", "1e999", "-1e999", "1e-999", "100000", "2147483648", "0000000000012", "1.0000000", ".5e1", "1e22", "3e38", "4e38", "-4e38"]
def bounds(sh):
    x = sh.strip("w ")
    lo, hi = float(x.replace("d", "0").replace("z", "1")), float(x.replace("z", "9").replace("d", "9"))
    if "e-" in x.lower(): m, e = x.lower().split("e-"); lo, hi = float(m.replace("d", "0").replace("z", "1") + "e-" + e.replace("d", "9")), float(m.replace("d", "9").replace("z", "9") + "e-" + e.replace("d", "0"))
    return min(lo, hi), max(lo, hi)
for t, ct, cut in (("Double", "double", float), ("Single", "float", single)):
    def pair(n, tag):
        p = ["wchar_t"] * n
        return ("fn Laws::Parse%s(%s) #%s" % (t, ", ".join(p), tag), 1), ("fn Laws::Try%s(%s) #%s" % (t, ", ".join([ct + "&"] + p), tag), 2)
    for k, sh in enumerate(FGOOD):
        for sig, first in pair(len(sh), "%s%d" % ("good" if sh in FGOOD else "bad", k)):
            lo, hi = bounds(sh.replace("D", "d")); r = "ret" if first == 1 else "$1'"
            out += [sig, "if %s => returns, %s%s >= %s, %s <= %s" % (", ".join(shape(sh, first)), "" if first == 1 else "ret == 1, ", r, lit(cut(lo)), r, lit(cut(hi)))]
    for k, sh in enumerate(FBAD):
        for sig, first in pair(len(sh), "%s%d" % ("good" if sh in FGOOD else "bad", k)):
            c = ", ".join(shape(sh, first)); res = "throws FormatException" if first == 1 else "returns, ret == 0, $1' == 0.0"
            out += [sig, "if %s => %s" % (c, res) if c else "always => " + res]
    for n in (1, 2, 3, 5):
        for sig, first in pair(n, "stray"):
            out.append(sig)
            for a, b in STRAY:
                for at in sorted({0, n // 2, n - 1}):
                    if (a, b) == (33, 100) and at != n - 1: continue
                    if (a, b) == (33, 100): a, b = 58, 68
                    c = shape("d" * at, first) + ["$%d >= %d, $%d <= %d" % (first + at, a, first + at, b)] + shape("d" * (n - at - 1), first + at + 1)
                    out.append("if %s => %s" % (", ".join(c), "throws FormatException" if first == 1 else "returns, ret == 0, $1' == 0.0"))
    for x in TEXTS:
        for sig, first in pair(len(x), "exactly" + x):
            out += [sig, "if %s => returns, %s%s == %s" % (", ".join("$%d == %d" % (first + i, ord(k)) for i, k in enumerate(x)), "" if first == 1 else "ret == 1, ", "ret" if first == 1 else "$1'", lit(cut(float(x))))]
# Boolean values: their two texts in any case, within white space, and nothing else
def word(x, tag, res):
    out.append("fn Laws::ParseBoolean(%s) #%s" % (", ".join(["wchar_t"] * len(x)), tag))
    out.append("if %s => %s" % (", ".join("$%d == %d" % (i + 1, ord(k)) if k != "\t" else "$%d >= 9, $%d <= 13" % (i + 1, i + 1) for i, k in enumerate(x)), res) if x else "always => " + res)
for w, r in (("True", 1), ("False", 0)):
    for v in (w, w.lower(), w.upper(), w.swapcase(), w[:2].upper() + w[2:], w[:-1] + w[-1].upper()):
        for a, b in (("", ""), (" ", ""), ("", "\t"), ("\t ", " "), ("", "   ")): word(a + v + b, "word%d%d" % (len(a), len(b)) + v, "returns, ret == %d" % r)
    for i, v in enumerate((w[:-1], w + w[-1], w[1:], w[:2] + " " + w[2:], w[0] + w, w + " " + w[0], w.replace("e", "a"))):
        if len(v) < 10: word(v, "bad%d%s" % (i, w), "throws FormatException")
    for j in range(len(w)):
        for a, b in ((1, 64), (91, 96), (123, 127)):
            if j in (0, len(w) - 1): a, b = (33, 64) if a == 1 else (a, b)
            out += ["fn Laws::ParseBoolean(%s) #odd%d%d" % (", ".join(["wchar_t"] * len(w)), j, a),
                    "if %s => throws FormatException" % ", ".join("$%d >= %d, $%d <= %d" % (i + 1, a, i + 1, b) if i == j else "$%d == %d" % (i + 1, ord(k)) for i, k in enumerate(w))]
for i, v in enumerate(("", " ", "  \t ", "1", "0", "yes", "no", "T", "F", "truefalse"[:9])): word(v, "none%d" % i, "throws FormatException")
out += ["fn Laws::TextChar(wchar_t)", "if $1 >= 0, $1 <= 65535 => returns, ret == $1"]
print("\n".join(out))
