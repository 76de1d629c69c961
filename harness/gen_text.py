"""Text content: one definition per operation and shape. Each has a C++ body (harness/text.cpp, never executed, only
analysed) and a reference model in Python. The model is run once per outcome of the character comparisons it makes, so
the cases written by spec/text.py cover every text of the shape."""
import os

C = {"Char": "wchar_t", "Int32": "int", "Boolean": "bool", "UInt32": "unsigned int", "Int64": "long", "UInt64": "unsigned long", "Byte": "unsigned char",
     "SByte": "signed char", "Int16": "short", "UInt16": "unsigned short", "Single": "float", "Double": "double"}
OPS = []


class Need(Exception):
    pass


class Path:
    """decisions taken so far: indexes into the alternatives offered"""
    def __init__(self, pre):
        self.pre, self.pos, self.taken, self.conds, self.facts, self.memo = pre, 0, [], [], [], {}

    def choose(self, alts):
        """alts: list of (conditions, value)"""
        k = self.pre[self.pos] if self.pos < len(self.pre) else 0
        self.pos += 1
        self.taken.append((k, len(alts)))
        self.conds += alts[k][0]
        return alts[k][1]

    def once(self, key, alts):
        if key not in self.memo:
            self.memo[key] = self.choose(alts)
        return self.memo[key]

    def find(self, a):
        for x, y, e in self.facts:
            if e and a == y:
                return self.find(x)
        return a

    def eq(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if not isinstance(a, str) and not isinstance(b, str):
            return False
        for x, y, e in self.facts:
            if not e and {self.find(x), self.find(y)} == {a, b}:
                return False
        if not isinstance(b, str):
            a, b = b, a   # the constant leads its class
        if isinstance(a, str) and isinstance(b, str) and a > b:
            a, b = b, a
        r = self.choose([(["%s == %s" % (b, a)], True), (["%s != %s" % (b, a)], False)])
        self.facts.append((a, b, r))
        return r

    def cmp(self, a, b):
        """-1, 0, 1 by character code"""
        if self.eq(a, b):
            return 0
        return self.choose([(["%s < %s" % (a, b)], -1), (["%s > %s" % (a, b)], 1)])


def paths(model, *args):
    todo = [[]]
    while todo:
        p = Path(todo.pop())
        r = model(p, *args)
        if r is not None:
            yield p.conds, r
        for i in range(len(p.pre), len(p.taken)):
            k, n = p.taken[i]
            todo += [[t for t, _ in p.taken[:i]] + [j] for j in range(1, n)]


def op(name, ret, params, body, model, ints=((),), pre=(), grp="String"):
    """params: [(type, name)]; free characters first, then the parameters whose values the tuples in ints list"""
    OPS.append(dict(name=name, ret=ret, params=params, body=body, model=model, ints=list(ints), pre=list(pre), grp=grp))


def ch(n, base="c"):
    return [("Char", base + str(i)) for i in range(n)]


def text(var, chars):
    """C++ text making a String of the given characters, which may be zero"""
    return "String* %s = new String(L' ', %d);%s" % (var, len(chars), "".join(" *%s->Address(%d) = %s;" % (var, i, c[1]) for i, c in enumerate(chars)))


def arr(var, chars):
    return "Char t_%s[] = { %s }; Array* %s = new Array(CharType, %d); for (Int32 i = 0; i < %d; ++i) *(Char*) %s->Address(i) = t_%s[i];" % (
        var, ", ".join([c[1] for c in chars] + ["0"]), var, len(chars), len(chars), var, var)


def sym(first, n):
    return ["$%d" % (first + i) for i in range(n)]


I = lambda *names: [("Int32", n) for n in names]


# ---- reference semantics -------------------------------------------------------------------------------------
def match(p, s, at, w):
    return at >= 0 and at + len(w) <= len(s) and all(p.eq(s[at + i], w[i]) for i in range(len(w)))


def find(p, s, w, st, ct):
    for i in range(st, st + ct - len(w) + 1):
        if match(p, s, i, w):
            return i
    return -1


def rfind(p, s, w, st, ct):
    # the match lies within [st - ct + 1, st]
    for i in range(st - len(w) + 1, st - ct, -1):
        if match(p, s, i, w):
            return i
    return -1


def replace(p, s, old, new, st, ct):
    o, i = list(s[:st]), st
    while i < st + ct:
        if i + len(old) <= st + ct and match(p, s, i, old):
            o += new
            i += len(old)
        else:
            o.append(s[i])
            i += 1
    return o + list(s[st + ct:])


WS = ["%s == 32", "%s >= 9, %s <= 13", "%s == 160", "%s == 12288"] + ["%%s == %d" % k for k in range(8192, 8203)]
NOTWS = ["%s >= 33, %s <= 126", "%s >= 161, %s <= 8191", "%s >= 12289, %s <= 65000", "%s >= 14, %s <= 31"]


def isws(p, c, few=False):
    return p.once(("ws", c), [([x.replace("%s", c)], True) for x in (WS[:2] if few else WS)] + [([x.replace("%s", c)], False) for x in (NOTWS[:1] if few else NOTWS)])


def trim(p, s, ws, start, end):
    i, j = 0, len(s)
    while start and i < j and ws(s[i]):
        i += 1
    while end and j > i and ws(s[j - 1]):
        j -= 1
    return s[i:j]


def ranges(n, extra=0):
    return [(st, ct) for st in range(n + 1) for ct in range(n - st + 1)]


def rranges(n):
    return [(st, ct) for st in range(n) for ct in range(st + 2)]


def strings():
    for n in range(0, 5):
        c = ch(n)
        s = sym(1, n)
        S = text("s", c)
        k = n + 1
        # building
        op("Make%d" % n, "String*", c, S + " return s;", lambda p, s=s: ("text", s))
        op("MakePart%d" % n, "String*", c + I("st", "ct"), "Char t[] = { %s }; return new String(t, st, ct);" % ", ".join([x[1] for x in c] + ["0"]),
           lambda p, st, ct, s=s: ("text", s[st:st + ct] if ct >= 0 else s[st:]), ranges(n) + [(st, -1) for st in range(n + 1)])
        op("MakeArray%d" % n, "String*", c + I("st", "ct"), arr("a", c) + " return new String(a, st, ct);",
           lambda p, st, ct, s=s: ("text", s[st:st + ct] if ct >= 0 else s), [x for x in ranges(n) if x[0] < n or n == 0] + [(0, -1)])
        op("Copy%d" % n, "String*", c, S + " return String::Copy(s);", lambda p, s=s: ("text", s))
        op("Chars%d" % n, "Char", c + I("i"), S + " return s->get_Chars(i);", lambda p, i, s=s: ("val", s[i]), [(i,) for i in range(n)])
        op("Length%d" % n, "Int32", c, S + " return s->get_Length();", lambda p, n=n: ("val", n))
        # parts
        op("Substring%d" % n, "String*", c + I("st", "ct"), S + " return s->Substring(st, ct);", lambda p, st, ct, s=s: ("text", s[st:st + ct] if ct >= 0 else s[st:]),
           ranges(n) + [(st, -1) for st in range(n + 1)])
        op("Remove%d" % n, "String*", c + I("st", "ct"), S + " return s->Remove(st, ct);", lambda p, st, ct, s=s: ("text", s[:st] + s[st + ct:] if ct >= 0 else s[:st]),
           ranges(n) + [(st, -1) for st in range(n + 1)])
        op("ToCharArray%d" % n, "Array*", c + I("st", "ct"), S + " return s->ToCharArray(st, ct);", lambda p, st, ct, s=s: ("arr", s[st:st + ct] if ct >= 0 else s[st:]),
           [x for x in ranges(n) if x[1]] + [(st, -1) for st in range(n)])
        op("CopyTo%d" % n, "Array*", c + ch(4, "d") + I("st", "at", "ct"), S + arr("d", ch(4, "d")) + " s->CopyTo(st, d, at, ct); return d;",
           lambda p, st, at, ct, s=s, d=sym(n + 1, 4): ("arr", d[:at] + s[st:st + ct] + d[at + ct:]), [(st, at, ct) for st, ct in ranges(n) for at in range(5 - ct)])
        for m in range(0, 3):
            w = ch(m, "w")
            ws = sym(n + 1, m)
            W = text("w", w)
            op("Insert%d_%d" % (n, m), "String*", c + w + I("at"), S + W + " return s->Insert(at, w);", lambda p, at, s=s, ws=ws: ("text", s[:at] + ws + s[at:]), [(i,) for i in range(n + 1)])
            op("Concat%d_%d" % (n, m), "String*", c + w, S + W + " return String::Concat(s, w);", lambda p, s=s, ws=ws: ("text", s + ws))
            op("Contains%d_%d" % (n, m), "Boolean", c + w, S + W + " return s->Contains(w);", lambda p, s=s, ws=ws, n=n: ("val", int(find(p, s, ws, 0, n) >= 0)))
            op("StartsWith%d_%d" % (n, m), "Boolean", c + w, S + W + " return s->StartsWith(w);", lambda p, s=s, ws=ws: ("val", int(match(p, s, 0, ws))))
            op("EndsWith%d_%d" % (n, m), "Boolean", c + w, S + W + " return s->EndsWith(w);", lambda p, s=s, ws=ws: ("val", int(match(p, s, len(s) - len(ws), ws))))
            op("IndexOfText%d_%d" % (n, m), "Int32", c + w + I("st", "ct"), S + W + " return s->IndexOf(w, st, ct);", lambda p, st, ct, s=s, ws=ws: ("val", find(p, s, ws, st, ct)), ranges(n))
            op("IndexOfTextFrom%d_%d" % (n, m), "Int32", c + w + I("st"), S + W + " return s->IndexOf(w, st);", lambda p, st, s=s, ws=ws: ("val", find(p, s, ws, st, len(s) - st)), [(i,) for i in range(n + 1)])
            op("IndexOfTextAll%d_%d" % (n, m), "Int32", c + w, S + W + " return s->IndexOf(w);", lambda p, s=s, ws=ws: ("val", find(p, s, ws, 0, len(s))))
            if n and m:
                op("LastIndexOfText%d_%d" % (n, m), "Int32", c + w + I("st", "ct"), S + W + " return s->LastIndexOf(w, st, ct);", lambda p, st, ct, s=s, ws=ws: ("val", rfind(p, s, ws, st, ct)), rranges(n))
                op("LastIndexOfTextAll%d_%d" % (n, m), "Int32", c + w, S + W + " return s->LastIndexOf(w);", lambda p, s=s, ws=ws: ("val", rfind(p, s, ws, len(s) - 1, len(s))))
            op("IndexOfAny%d_%d" % (n, m), "Int32", c + w + I("st", "ct"), S + arr("w", w) + " return s->IndexOfAny(w, st, ct);",
               lambda p, st, ct, s=s, ws=ws: ("val", next((i for i in range(st, st + ct) if any(p.eq(s[i], x) for x in ws)), -1)), ranges(n))
            op("IndexOfAnyFrom%d_%d" % (n, m), "Int32", c + w + I("st"), S + arr("w", w) + " return s->IndexOfAny(w, st);",
               lambda p, st, s=s, ws=ws: ("val", next((i for i in range(st, len(s)) if any(p.eq(s[i], x) for x in ws)), -1)), [(i,) for i in range(n + 1)])
            if n:
                op("LastIndexOfAny%d_%d" % (n, m), "Int32", c + w + I("st", "ct"), S + arr("w", w) + " return s->LastIndexOfAny(w, st, ct);",
                   lambda p, st, ct, s=s, ws=ws: ("val", next((i for i in range(st, st - ct, -1) if any(p.eq(s[i], x) for x in ws)), -1)), rranges(n) + [])
            for q in range(0, 4):
                if m and n + m + q <= 7:
                    r = ch(q, "r")
                    op("ReplaceText%d_%d_%d" % (n, m, q), "String*", c + w + r, S + W + text("r", r) + " return s->Replace(w, r);",
                       lambda p, s=s, ws=ws, r=sym(n + m + 1, q), n=n: ("text", replace(p, s, ws, r, 0, n)))
            if m and n <= 3:
                sep = lambda p, c, ws=ws: any(p.eq(c, x) for x in ws)
                for f, a, b in (("Trim", 1, 1), ("TrimStart", 1, 0), ("TrimEnd", 0, 1)):
                    op("%sSet%d_%d" % (f, n, m), "String*", c + w, S + arr("w", w) + " return s->%s(w);" % f,
                       lambda p, s=s, sep=sep, a=a, b=b: ("text", trim(p, s, lambda c: sep(p, c), a, b)))
            if m:
                op("Join%d_%d" % (n, m), "String*", c + w + ch(2, "j") + I("st", "ct"), S + W + text("j", ch(2, "j")) + " String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct);",
                   lambda p, st, ct, s=s, ws=ws, j=sym(n + m + 1, 2): ("text", join([s, ws, s][st:st + ct] if ct >= 0 else [s, ws, s][st:], j)), ranges(3) + [(0, -1), (1, -1)])
                op("JoinChar%d_%d" % (n, m), "String*", c + w + ch(1, "j") + I("st", "ct"), S + W + " String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct);",
                   lambda p, st, ct, s=s, ws=ws, j=sym(n + m + 1, 1): ("text", join([s, ws, s][st:st + ct] if ct >= 0 else [s, ws, s][st:], j)), ranges(3) + [(0, -1), (1, -1)])
                op("ConcatArray%d_%d" % (n, m), "String*", c + w, S + W + " String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a);",
                   lambda p, s=s, ws=ws: ("text", s + ws + s))
        op("Concat7_%d" % n, "String*", c + ch(2, "w"), S + text("w", ch(2, "w")) + " return String::Concat(s, w, s, w, w, s, w);", lambda p, s=s, w=sym(k, 2): ("text", s + w + s + w + w + s + w))
        for f, q in (("IndexOf", "st, ct"), ("LastIndexOf", "st, ct")):
            if f == "IndexOf":
                op("IndexOf%d" % n, "Int32", c + ch(1, "w") + I("st", "ct"), S + " return s->IndexOf(w0, st, ct);", lambda p, st, ct, s=s, w=sym(k, 1): ("val", find(p, s, w, st, ct)), ranges(n))
                op("IndexOfFrom%d" % n, "Int32", c + ch(1, "w") + I("st"), S + " return s->IndexOf(w0, st);", lambda p, st, s=s, w=sym(k, 1): ("val", find(p, s, w, st, len(s) - st)), [(i,) for i in range(n + 1)])
                op("IndexOfAll%d" % n, "Int32", c + ch(1, "w"), S + " return s->IndexOf(w0);", lambda p, s=s, w=sym(k, 1): ("val", find(p, s, w, 0, len(s))))
            elif n:
                op("LastIndexOf%d" % n, "Int32", c + ch(1, "w") + I("st", "ct"), S + " return s->LastIndexOf(w0, st, ct);", lambda p, st, ct, s=s, w=sym(k, 1): ("val", rfind(p, s, w, st, ct)), rranges(n))
                op("LastIndexOfAll%d" % n, "Int32", c + ch(1, "w"), S + " return s->LastIndexOf(w0);", lambda p, s=s, w=sym(k, 1): ("val", rfind(p, s, w, len(s) - 1, len(s))))
        op("EndsWithChar%d" % n, "Boolean", c + ch(1, "w"), S + " return s->EndsWith(w0);", lambda p, s=s, k=k: ("val", int(bool(s) and p.eq(s[-1], "$%d" % k))))
        op("Replace%d" % n, "String*", c + ch(2, "w"), S + " return s->Replace(w0, w1);", lambda p, s=s, k=k: ("text", ["$%d" % (k + 1) if p.eq(x, "$%d" % k) else x for x in s]))
        for f in ("PadLeft", "PadRight"):
            op("%s%d" % (f, n), "String*", c + ch(1, "w") + I("n"), S + " return s->%s(n, w0);" % f,
               lambda p, w, s=s, k=k, f=f: ("text", ["$%d" % k] * max(0, w - len(s)) + s if f == "PadLeft" else s + ["$%d" % k] * max(0, w - len(s))), [(i,) for i in range(n + 4)])
            op("%sBlank%d" % (f, n), "String*", c + I("n"), S + " return s->%s(n);" % f,
               lambda p, w, s=s, f=f: ("text", [32] * max(0, w - len(s)) + s if f == "PadLeft" else s + [32] * max(0, w - len(s))), [(i,) for i in range(n, n + 3)])
        if n <= 3:
            op("Trim%d" % n, "String*", c, S + " return s->Trim();", lambda p, s=s: ("text", trim(p, s, lambda c: isws(p, c, len(s) > 1), 1, 1)))
            op("TrimStart%d" % n, "String*", c, S + " return s->TrimStart(nullptr);", lambda p, s=s: ("text", trim(p, s, lambda c: isws(p, c, len(s) > 1), 1, 0)))
            op("TrimEnd%d" % n, "String*", c, S + " return s->TrimEnd(nullptr);", lambda p, s=s: ("text", trim(p, s, lambda c: isws(p, c, len(s) > 1), 0, 1)))
            op("IsNullOrWhiteSpace%d" % n, "Boolean", c, S + " return String::IsNullOrWhiteSpace(s);",
               lambda p, s=s: ("val", int(all([p.choose([(["%s >= 9, %s <= 13" % (c, c)], True), (["%s == 32" % c], True), (["%s >= 33, %s <= 127" % (c, c)], False), (["%s >= 1, %s <= 8" % (c, c)], False)]) for c in s]))))
            op("ToUpper%d" % n, "String*", c, S + " return s->ToUpper();", lambda p, s=s: ("text", [casemap(p, x, True) for x in s]))
            op("ToLower%d" % n, "String*", c, S + " return s->ToLower();", lambda p, s=s: ("text", [casemap(p, x, False) for x in s]))
            op("ToUpperInvariant%d" % n, "String*", c, S + " return s->ToUpperInvariant();", lambda p, s=s: ("text", [casemap(p, x, True) for x in s]))
            op("ToLowerInvariant%d" % n, "String*", c, S + " return s->ToLowerInvariant();", lambda p, s=s: ("text", [casemap(p, x, False) for x in s]))
        for m in range(0, 4):
            if abs(n - m) > 2 or n > 3:
                continue
            w = ch(m, "w")
            ws = sym(k, m)
            W = text("w", w)
            same = lambda p, s=s, ws=ws: int(len(s) == len(ws) and match(p, s, 0, ws))
            op("Equals%d_%d" % (n, m), "Boolean", c + w, S + W + " return s->Equals(w);", lambda p, f=same: ("val", f(p)))
            op("EqualsObject%d_%d" % (n, m), "Boolean", c + w, S + W + " Object* o = w; return s->Equals(o);", lambda p, f=same: ("val", f(p)))
            op("EqualsStatic%d_%d" % (n, m), "Boolean", c + w, S + W + " return String::Equals(s, w);", lambda p, f=same: ("val", f(p)))
            op("EqualsStaticO%d_%d" % (n, m), "Boolean", c + w, S + W + " return String::Equals(s, (Object*) w);", lambda p, f=same: ("val", f(p)))
            op("EqualsStaticP%d_%d" % (n, m), "Boolean", c + w, S + W + " return String::Equals((Object*) s, w);", lambda p, f=same: ("val", f(p)))
            op("Inequality%d_%d" % (n, m), "Boolean", c + w, S + W + " return String::op_Inequality(s, w);", lambda p, f=same: ("val", 1 - f(p)))
            op("CompareOrdinal%d_%d" % (n, m), "Int32", c + w, S + W + " return String::CompareOrdinal(s, w);", lambda p, s=s, ws=ws: ("sign", order(p, s, ws)))
            op("CompareOrdinalPart%d_%d" % (n, m), "Int32", c + w + I("i", "j", "ct"), S + W + " return String::CompareOrdinal(s, i, w, j, ct);",
               lambda p, i, j, ct, s=s, ws=ws: ("sign", order(p, s[i:i + ct], ws[j:j + ct])), [(i, j, ct) for i in range(n + 1) for j in range(m + 1) for ct in (0, 1, 2, 9) if i + j < 4])
            if n <= 2 and m <= 2:
                for f, call in (("Compare", "String::Compare(s, w)"), ("CompareIgnoreCase", "String::Compare(s, w, true)"), ("CompareTo", "s->CompareTo(w)"), ("CompareToObject", "s->CompareTo((Object*) w)")):
                    op("%s%d_%d" % (f, n, m), "Int32", c + w, S + W + " return %s;" % call, lambda p, s=s, ws=ws, f=f: ("sign", caseorder(p, s, ws, f != "CompareIgnoreCase")))
                for f in ("", "IgnoreCase"):
                    op("ComparePart%s%d_%d" % (f, n, m), "Int32", c + w + I("i", "j", "ct"), S + W + " return String::Compare(s, i, w, j, ct%s);" % (", true" if f else ", false"),
                       lambda p, i, j, ct, s=s, ws=ws, f=f: ("sign", caseorder(p, s[i:i + ct], ws[j:j + ct], not f)), [(i, j, ct) for i in range(n + 1) for j in range(m + 1) for ct in (0, 1, 9)])
    for t in range(0, 6):
        op("Repeat%d" % t, "String*", ch(1), "return new String(c0, %d);" % t, lambda p, t=t: ("text", ["$1"] * t))


def join(parts, j):
    o = []
    for i, x in enumerate(parts):
        o += (j if i else []) + x
    return o


def casemap(p, c, up):
    lo, hi = p.once(("case", c), [(["%s >= 97, %s <= 122" % (c, c)], (1, 0)), (["%s >= 65, %s <= 90" % (c, c)], (0, 1)), (["%s >= 1, %s <= 64" % (c, c)], (0, 0)),
                       (["%s >= 91, %s <= 96" % (c, c)], (0, 0)), (["%s >= 123, %s <= 127" % (c, c)], (0, 0))])
    return "%s - 32" % c if up and lo else "%s + 32" % c if hi and not up else c


CASES = [(97, 122), (65, 90), (1, 64), (91, 96), (123, 127)]


def caseorder(p, a, b, tie):
    """letters by letter, then lower case before upper case; everything else by code"""
    for x, y in zip(a, b):
        (xl, xh), (yl, yh) = [p.once(("order", c), [(["%s >= %d" % (c, lo), "%s <= %d" % (c, hi)], (lo, hi)) for lo, hi in CASES]) for c in (x, y)]
        mx, my = [("%s + 32" % c if lo == 65 else c) for c, lo in ((x, xl), (y, yl))]
        fx, fy = [((lo + 32, hi + 32) if lo == 65 else (lo, hi)) for lo, hi in ((xl, xh), (yl, yh))]
        alts = [(["%s < %s" % (mx, my)], -1)] * (fx[0] < fy[1]) + [(["%s == %s" % (mx, my)], 0)] * (fx[0] <= fy[1] and fy[0] <= fx[1]) + [(["%s > %s" % (mx, my)], 1)] * (fx[1] > fy[0])
        k = p.once(("cmp", x, y), alts)
        if k:
            return k
        if tie and xl != yl:
            return -1 if xl == 97 else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def order(p, a, b):
    for x, y in zip(a, b):
        k = p.cmp(x, y)
        if k:
            return k
    return (len(a) > len(b)) - (len(a) < len(b))


strings()

# ---- StringBuilder -------------------------------------------------------------------------------------------
# ways of making a builder that holds s: internal memory, exactly full, external memory
MAKE = [("", "StringBuilder* b = new StringBuilder(s);"), ("Full", "StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length());"),
        ("Big", "StringBuilder* b = new StringBuilder(s); b->set_Capacity(200);")]


def builders():
    for n in range(0, 4):
        c, s, k = ch(n), sym(1, n), n + 1
        for tag, mk in MAKE:
            S = text("s", c) + " " + mk + " "
            def add(name, ret, params, body, model, ints=((),), pre=()):
                op("B%s%s%d" % (name, tag, n), ret, params, S + body, model, ints, pre, grp="StringBuilder")
            add("ToString", "String*", c, "return b->ToString();", lambda p, s=s: ("text", s))
            add("ToStringPart", "String*", c + I("st", "ct"), "return b->ToString(st, ct);", lambda p, st, ct, s=s: ("text", s[st:st + ct]), ranges(n))
            add("Chars", "Char", c + I("i"), "return b->get_Chars(i);", lambda p, i, s=s: ("val", s[i]), [(i,) for i in range(n)])
            add("SetChars", "StringBuilder*", c + ch(1, "w") + I("i"), "b->set_Chars(i, w0); return b;", lambda p, i, s=s, k=k: ("sb", s[:i] + ["$%d" % k] + s[i + 1:]), [(i,) for i in range(n)])
            add("SetLength", "StringBuilder*", c + I("n"), "b->set_Length(n); return b;", lambda p, m, s=s: ("sb", (s + [0] * m)[:m]), [(i,) for i in range(n + 3)])
            add("SetLengthTwice", "StringBuilder*", c + I("n", "m"), "b->set_Length(n); b->set_Length(m); return b;", lambda p, m, q, s=s: ("sb", ((s + [0] * m)[:m] + [0] * q)[:q]), [(i, j) for i in range(n + 1) for j in range(n + 2)])
            add("Clear", "StringBuilder*", c, "return b->Clear();", lambda p: ("sb", []))
            add("Capacity", "StringBuilder*", c + I("n"), "b->EnsureCapacity(n); return b;", lambda p, m, s=s: ("sb", s), [(0,), (100,), (128,), (129,), (256,), (257,), (1000,)])
            add("AppendChar", "StringBuilder*", c + ch(1, "w"), "return b->Append(w0);", lambda p, s=s, k=k: ("sb", s + ["$%d" % k]))
            add("AppendRepeat", "StringBuilder*", c + ch(1, "w") + I("n"), "return b->Append(w0, n);", lambda p, m, s=s, k=k: ("sb", s + ["$%d" % k] * m), [(i,) for i in range(4)])
            add("AppendBoolean", "StringBuilder*", c, "return b->Append(true)->Append(false);", lambda p, s=s: ("sb", s + [ord(x) for x in "TrueFalse"]))
            add("AppendLine", "StringBuilder*", c, "return b->AppendLine();", lambda p, s=s: ("sb", s + [13, 10]))
            for t, lo in (("SByte", -9), ("Byte", 0), ("Int16", -9), ("UInt16", 0), ("Int32", -9), ("UInt32", 0), ("Int64", -9), ("UInt64", 0)):
                add("Append%s" % t, "StringBuilder*", c + [(t, "v")], "return b->Append(v);", lambda p, s=s, k=k, lo=lo: ("sb", s + digit(p, k, lo)))
                add("Insert%s" % t, "StringBuilder*", c + [(t, "v")] + I("at"), "return b->Insert(at, v);", lambda p, at, s=s, k=k, lo=lo: ("sb", s[:at] + digit(p, k, lo) + s[at:]), [(i,) for i in range(n + 1)])
            add("InsertBoolean", "StringBuilder*", c + I("at"), "return b->Insert(at, true);", lambda p, at, s=s: ("sb", s[:at] + [ord(x) for x in "True"] + s[at:]), [(i,) for i in range(n + 1)])
            add("InsertChar", "StringBuilder*", c + ch(1, "w") + I("at"), "return b->Insert(at, w0);", lambda p, at, s=s, k=k: ("sb", s[:at] + ["$%d" % k] + s[at:]), [(i,) for i in range(n + 1)])
            add("Remove", "StringBuilder*", c + I("st", "ct"), "return b->Remove(st, ct);", lambda p, st, ct, s=s: ("sb", s[:st] + s[st + ct:]), ranges(n))
            # text that was removed does not come back
            add("RemoveExtend", "StringBuilder*", c + I("st", "ct", "m"), "b->Remove(st, ct); b->set_Length(m); return b;", lambda p, st, ct, m, s=s: ("sb", (s[:st] + s[st + ct:] + [0] * m)[:m]),
                [(st, ct, m) for st, ct in ranges(n) for m in range(n + 2)])
            add("Replace", "StringBuilder*", c + ch(2, "w"), "return b->Replace(w0, w1);", lambda p, s=s, k=k: ("sb", ["$%d" % (k + 1) if p.eq(x, "$%d" % k) else x for x in s]))
            add("ReplacePart", "StringBuilder*", c + ch(2, "w") + I("st", "ct"), "return b->Replace(w0, w1, st, ct);",
                lambda p, st, ct, s=s, k=k: ("sb", ["$%d" % (k + 1) if st <= i < st + ct and p.eq(x, "$%d" % k) else x for i, x in enumerate(s)]), ranges(n))
            for m in range(0, 3):
                w, ws, W = ch(m, "w"), sym(k, m), text("w", ch(m, "w"))
                def add2(name, ret, params, body, model, ints=((),), pre=(), W=W, m=m):
                    op("B%s%s%d_%d" % (name, tag, n, m), ret, params, S + W + " " + body, model, ints, pre, grp="StringBuilder")
                add2("Append", "StringBuilder*", c + w, "return b->Append(w);", lambda p, s=s, ws=ws: ("sb", s + ws))
                add2("AppendObject", "StringBuilder*", c + w, "Object* o = w; return b->Append(o);", lambda p, s=s, ws=ws: ("sb", s + ws))
                add2("AppendPart", "StringBuilder*", c + w + I("st", "ct"), "return b->Append(w, st, ct);", lambda p, st, ct, s=s, ws=ws: ("sb", s + ws[st:st + ct]), ranges(m))
                add2("AppendLineText", "StringBuilder*", c + w, "return b->AppendLine(w);", lambda p, s=s, ws=ws: ("sb", s + ws + [13, 10]))
                add2("AppendChars", "StringBuilder*", c + w + I("ct", "at"), "return b->Append(w->get_Buffer(), ct, at);", lambda p, ct, at, s=s, ws=ws: ("sb", s[:at] + ws[:ct] + s[at:]), [(ct, at) for ct in range(m + 1) for at in range(n + 1)])
                add2("AppendArray", "StringBuilder*", c + w + I("st", "ct"), "Array* a = new Array(CharType, %d); for (Int32 i = 0; i < %d; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct);" % (m, m),
                     lambda p, st, ct, s=s, ws=ws: ("sb", s + ws[st:st + ct]), ranges(m))
                add2("InsertArray", "StringBuilder*", c + w + I("at", "st", "ct"), "Array* a = new Array(CharType, %d); for (Int32 i = 0; i < %d; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct);" % (m, m),
                     lambda p, at, st, ct, s=s, ws=ws: ("sb", s[:at] + ws[st:st + ct] + s[at:]), [(at, st, ct) for at in range(n + 1) for st, ct in ranges(m)])
                add2("Insert", "StringBuilder*", c + w + I("at", "ct"), "return b->Insert(at, w, ct);", lambda p, at, ct, s=s, ws=ws: ("sb", s[:at] + ws * ct + s[at:]), [(at, ct) for at in range(n + 1) for ct in range(4)])
                add2("InsertObject", "StringBuilder*", c + w + I("at"), "Object* o = w; return b->Insert(at, o);", lambda p, at, s=s, ws=ws: ("sb", s[:at] + ws + s[at:]), [(at,) for at in range(n + 1)])
                add2("Equals", "Boolean", c + w, "StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d);",
                     lambda p, s=s, ws=ws: ("val", int(len(s) == len(ws) and match(p, s, 0, ws))))
                for q in range(0, 4):
                    if m and n + m + q <= 6:
                        r, R = ch(q, "r"), text("r", ch(q, "r"))
                        add2("ReplaceText%d" % q, "StringBuilder*", c + w + r, R + " return b->Replace(w, r);", lambda p, s=s, ws=ws, r=sym(k + m, q): ("sb", replace(p, s, ws, r, 0, len(s))))
                        if q < 3:
                            add2("ReplaceTextPart%d" % q, "StringBuilder*", c + w + r + I("st", "ct"), R + " return b->Replace(w, r, st, ct);",
                                 lambda p, st, ct, s=s, ws=ws, r=sym(k + m, q): ("sb", replace(p, s, ws, r, st, ct)), ranges(n))
    # across the end of the internal memory
    for f in (125, 126, 127, 128):
        pre = "StringBuilder* b = new StringBuilder(); b->Append(L'x', %d); " % f
        c = ch(3)
        op("BGrow%d" % f, "StringBuilder*", c, text("s", c) + " " + pre + "return b->Append(s);", lambda p, f=f: ("sb", [120] * f + sym(1, 3)), grp="StringBuilder")
        op("BGrowInsert%d" % f, "StringBuilder*", c, text("s", c) + " " + pre + "return b->Insert(1, s);", lambda p, f=f: ("sb", [120] + sym(1, 3) + [120] * (f - 1)), grp="StringBuilder")
        op("BGrowTwice%d" % f, "StringBuilder*", c, text("s", c) + " " + pre + "b->Append(c0)->Append(c1); return b->Append(s, 2, 1);", lambda p, f=f: ("sb", [120] * f + sym(1, 3)), grp="StringBuilder")
        op("BGrowLine%d" % f, "StringBuilder*", c, text("s", c) + " " + pre + "return b->AppendLine(s);", lambda p, f=f: ("sb", [120] * f + sym(1, 3) + [13, 10]), grp="StringBuilder")
        op("BGrowText%d" % f, "String*", c, text("s", c) + " " + pre + "b->Append(s)->Remove(0, 120); return b->ToString();", lambda p, f=f: ("text", [120] * (f - 120) + sym(1, 3)), grp="StringBuilder")
    # texts and builders far longer than the internal memory, which move more than once
    def long(var, k, c, m, e):
        return ("StringBuilder* b_%s = new StringBuilder(); b_%s->Append(L'x', %d); %s b_%s->Append(s_%s); b_%s->Append(L'y', %d); " % (var, var, k, text("s_" + var, c), var, var, var, m)
                + "b_%s->Append(%s)->Append(L'z', 17)->Append(%s); " % (var, e[0][1], e[1][1]))
    for k, m in ((60, 300), (126, 126), (127, 129), (200, 300), (254, 400)):
        c, e = ch(3), ch(2, "e")
        s, S = [120] * k + sym(1, 3) + [121] * m + ["$4"] + [122] * 17 + ["$5"], long("s", k, c, m, e) + "StringBuilder* b = b_s; "
        L = len(s)
        nm = "_%d_%d" % (k, m)
        def lop(name, ret, body, model, nm=nm, c=c + e, S=S):
            op("BLong" + name + nm, ret, c, S + body, model, grp="StringBuilder")
        lop("Text", "String*", "return b->ToString();", lambda p, s=s: ("text", s))
        lop("Part", "String*", "return b->ToString(%d, %d);" % (k - 1, m + 6), lambda p, s=s, k=k, m=m: ("text", s[k - 1:k + 5 + m]))
        lop("Grow", "StringBuilder*", "b->EnsureCapacity(%d); return b;" % (2 * L), lambda p, s=s: ("sb", s))
        lop("GrowMore", "StringBuilder*", "b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b;", lambda p, s=s: ("sb", s))
        lop("Capacity", "StringBuilder*", "b->set_Capacity(%d); return b;" % (2 * L), lambda p, s=s: ("sb", s))
        lop("Extend", "StringBuilder*", "b->set_Length(%d); return b;" % (L + 150), lambda p, s=s: ("sb", s + [0] * 150))
        lop("Cut", "StringBuilder*", "b->set_Length(%d); return b;" % (L - 18), lambda p, s=s: ("sb", s[:-18]))
        lop("CutExtend", "StringBuilder*", "b->set_Length(%d); b->set_Length(%d); return b;" % (L - 18, L), lambda p, s=s: ("sb", s[:-18] + [0] * 18))
        lop("Insert", "StringBuilder*", "return b->Insert(%d, new String(L'z', 140));" % (k + 1), lambda p, s=s, k=k: ("sb", s[:k + 1] + [122] * 140 + s[k + 1:]))
        lop("InsertTwice", "StringBuilder*", "return b->Insert(%d, new String(L\"abc\"), 2);" % (k + 1), lambda p, s=s, k=k: ("sb", s[:k + 1] + [97, 98, 99] * 2 + s[k + 1:]))
        lop("InsertChar", "StringBuilder*", "return b->Insert(0, L'w');", lambda p, s=s, k=k: ("sb", [119] + s))
        lop("InsertNumber", "StringBuilder*", "return b->Insert(%d, (Int32) 7);" % (k + 2), lambda p, s=s, k=k: ("sb", s[:k + 2] + [55] + s[k + 2:]))
        lop("InsertArray", "StringBuilder*", "return b->Insert(%d, (new String(L\"abcd\"))->ToCharArray(), 1, 2);" % (k + 2), lambda p, s=s, k=k: ("sb", s[:k + 2] + [98, 99] + s[k + 2:]))
        lop("Remove", "StringBuilder*", "return b->Remove(%d, %d);" % (k - 10, 130), lambda p, s=s, k=k: ("sb", s[:k - 10] + s[k + 120:]))
        lop("RemoveFirst", "StringBuilder*", "return b->Remove(0, 1);", lambda p, s=s: ("sb", s[1:]))
        lop("RemoveLast", "StringBuilder*", "return b->Remove(%d, 1);" % (L - 1), lambda p, s=s: ("sb", s[:-1]))
        lop("RemoveMost", "StringBuilder*", "return b->Remove(2, %d);" % (L - 3), lambda p, s=s: ("sb", s[:2] + s[-1:]))
        lop("Shorter", "StringBuilder*", "return b->Replace(new String(L\"xx\"), new String(L\"q\"), 0, %d);" % k, lambda p, s=s, k=k: ("sb", [113] * (k // 2) + [120] * (k % 2) + s[k:]))
        lop("Longer", "StringBuilder*", "return b->Replace(new String(L\"x\"), new String(L\"qr\"), 0, %d);" % (k // 2), lambda p, s=s, k=k: ("sb", [113, 114] * (k // 2) + s[k // 2:]))
        lop("ReplaceChar", "StringBuilder*", "return b->Replace(L'x', L'q', 0, %d);" % k, lambda p, s=s, k=k: ("sb", [113] * k + s[k:]))
        lop("Self", "StringBuilder*", "return b->Append(b->ToString());", lambda p, s=s: ("sb", s + s))
        lop("Copy", "StringBuilder*", "return new StringBuilder(b->ToString());", lambda p, s=s: ("sb", s))
        lop("CopyPart", "StringBuilder*", "return new StringBuilder(b->ToString(), %d, %d, 0);" % (k - 1, m + 10), lambda p, s=s, k=k, m=m: ("sb", s[k - 1:k + m + 9]))
        lop("Same", "Boolean", "StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); return b->Equals(d);", lambda p: ("val", 1))
        lop("Other", "Boolean", "StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); d->set_Chars(%d, e1 == L'a' ? L'b' : L'a'); return b->Equals(d);" % (L - 1), lambda p: ("val", 0))
    histories()


def digit(p, k, lo):
    return p.choose([(["$%d >= 0" % k, "$%d <= 9" % k], ["$%d + 48" % k])] + ([(["$%d <= -1" % k, "$%d >= -9" % k], [45, "48 - $%d" % k])] if lo < 0 else []))


# edits that follow one another: every sequence of two, and every sequence of three starting from a growth or a shrink
EDITS = [("AppendW", "b->Append(w);", lambda s, w: s + w), ("Prepend", "b->Insert(0, w);", lambda s, w: w + s), ("Middle", "b->Insert(1, w0);", lambda s, w: s[:1] + w[:1] + s[1:]),
         ("Drop", "b->Remove(0, 1);", lambda s, w: s[1:]), ("DropLast", "b->Remove(b->get_Length() - 1, 1);", lambda s, w: s[:-1]), ("Shrink", "b->set_Length(1);", lambda s, w: (s + [0])[:1]),
         ("Extend", "b->set_Length(b->get_Length() + 3);", lambda s, w: s + [0] * 3), ("Clear", "b->Clear();", lambda s, w: []), ("Set", "b->set_Chars(0, w1);", lambda s, w: w[1:2] + s[1:]),
         ("Repeat", "b->Append(w1, 2);", lambda s, w: s + [w[1], w[1]]), ("Grow", "b->EnsureCapacity(b->get_Capacity() + 1);", lambda s, w: s), ("Line", "b->AppendLine();", lambda s, w: s + [13, 10]),
         ("Twice", "b->Append(b->ToString());", lambda s, w: s + s), ("Big", "b->Append(L'z', 200);", lambda s, w: s + [122] * 200),
         # a smaller capacity may be refused, but it never loses text
         ("Trim", "try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { }", lambda s, w: s)]
BIG = len(EDITS) - 2
NEEDS = {"Middle": 1, "Drop": 1, "DropLast": 1, "Set": 1, "Shrink": 0}


def histories():
    import itertools
    c, w = ch(2), ch(2, "w")
    seqs = list(itertools.product(range(len(EDITS)), repeat=2)) + [x for x in itertools.product(range(len(EDITS)), repeat=3) if EDITS[x[1]][0] in ("Clear", "Grow", "Shrink", "Drop", "Extend", "Big", "Trim")]
    seqs += [(b, x, t, y) for b in (BIG, BIG + 1) for x in (3, 5, 7) for t in (10, BIG + 1) for y in range(len(EDITS))]
    seqs += [(BIG, x, t, y, z) for x in (3, 5, 7) for t in (10, BIG + 1) for y in (0, 1, 9) for z in range(len(EDITS))]
    for x in seqs:
        s, ok = sym(1, 2), True
        for i in x:
            name, _, f = EDITS[i]
            ok = ok and len(s) >= NEEDS.get(name, 0)
            s = f(s, sym(3, 2))
        if ok:
            op("BThen" + "".join(EDITS[i][0] for i in x), "StringBuilder*", c + w, text("s", c) + text("w", w) + " StringBuilder* b = new StringBuilder(s); " + " ".join(EDITS[i][1] for i in x) + " return b;",
               lambda p, s=s: ("sb", s), grp="StringBuilder")


builders()


# ---- Array and Buffer ----------------------------------------------------------------------------------------
def mkarr(var, params, t, n=None):
    """an array holding the given parameters"""
    n = len(params) if n is None else n
    return "Array* %s = new Array(%sType, %d); " % (var, t, n) + " ".join("*(%s*) %s->Address(%d) = %s;" % (t, var, i, x[1]) for i, x in enumerate(params)) + " "


def elems(n, t, base="c"):
    return [(t, base + str(i)) for i in range(n)]


def arrays():
    A = lambda name, *a, **k: op("A" + name, *a, grp="Array", **k)
    for t in ("SByte", "Byte", "Char", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Single", "Double"):
        full = t in ("Byte", "Int32", "Int64")
        for n in (3, 4) if full else (3,):
            c, s = elems(n, t), sym(1, n)
            moves = [(i, j, k) for k in range(n + 1) for i in range(n - k + 1) for j in range(n - k + 1)] if full else [(0, 1, n - 1), (1, 0, n - 1), (n - 1, 0, 1), (0, 0, n)]
            A("CopyWithin%s%d" % (t, n), "Array*", c + I("i", "j", "k"), mkarr("a", c, t) + "Array::Copy(a, i, a, j, k); return a;", lambda p, i, j, k, s=s: ("arr", s[:j] + s[i:i + k] + s[j + k:]), ints=moves)
            d, e = elems(n, t, "d"), sym(n + 1, n)
            for f in ("Copy", "ConstrainedCopy"):
                A("%s%s%d" % (f, t, n), "Array*", c + d + I("i", "j", "k"), mkarr("a", c, t) + mkarr("b", d, t) + "Array::%s(a, i, b, j, k); return b;" % f, lambda p, i, j, k, s=s, e=e: ("arr", e[:j] + s[i:i + k] + e[j + k:]), ints=moves)
                A("%sSource%s%d" % (f, t, n), "Array*", c + d + I("i", "j", "k"), mkarr("a", c, t) + mkarr("b", d, t) + "Array::%s(a, i, b, j, k); return a;" % f, lambda p, i, j, k, s=s: ("arr", s), ints=moves[:4])
            A("CopyFirst%s%d" % (t, n), "Array*", c + d + I("k"), mkarr("a", c, t) + mkarr("b", d, t) + "Array::Copy(a, b, k); return b;", lambda p, k, s=s, e=e: ("arr", s[:k] + e[k:]), ints=[(k,) for k in range(n + 1)])
            big, eb = elems(n + 2, t, "d"), sym(n + 1, n + 2)
            A("CopyTo%s%d" % (t, n), "Array*", c + big + I("k"), mkarr("a", c, t) + mkarr("b", big, t) + "a->CopyTo(b, k); return b;", lambda p, k, s=s, e=eb, n=n: ("arr", e[:k] + s + e[k + n:]), ints=[(0,), (1,), (2,)])
            A("Clear%s%d" % (t, n), "Array*", c + I("st", "ct"), mkarr("a", c, t) + "Array::Clear(a, st, ct); return a;", lambda p, st, ct, s=s: ("arr", s[:st] + [0] * ct + s[st + ct:]), ints=ranges(n))
            get = {"Byte": "Int32", "SByte": "Int32", "Int16": "Int32", "UInt16": "UInt32"}.get(t, t)
            A("SetGet%s%d" % (t, n), t, c + [(t, "v")] + I("i", "j"), mkarr("a", c, t) + "%sValue x(v); a->SetValue(&x, i); return (%s) a->GetValue(j)->get_As%s();" % (t, t, get),
              lambda p, i, j, s=s, n=n: ("val", ["$%d" % (n + 1) if i == q else s[q] for q in range(n)][j]), ints=[(i, j) for i in range(n) for j in range(n)])
            A("Set%s%d" % (t, n), "Array*", c + [(t, "v")] + I("i"), mkarr("a", c, t) + "%sValue x(v); a->SetValue(&x, i); return a;" % t, lambda p, i, s=s, n=n: ("arr", s[:i] + ["$%d" % (n + 1)] + s[i + 1:]), ints=[(i,) for i in range(n)])
            A("SetByList%s%d" % (t, n), "Array*", c + [(t, "v")] + I("i"), mkarr("a", c, t) + "%sValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a;" % t,
              lambda p, i, s=s, n=n: ("arr", s[:i] + ["$%d" % (n + 1)] + s[i + 1:]), ints=[(i,) for i in range(n)])
            A("New%s%d" % (t, n), "Array*", [], "return new Array(%sType, %d);" % (t, n), lambda p, n=n: ("arr", [0] * n))
        # two and three dimensions: row major, every element its own place
        c, s = elems(6, t), sym(1, 6)
        fill = "Array* a = new Array(%sType, 2, 3); " % t + "".join("*(%s*) a->Address(%d, %d) = c%d; " % (t, i // 3, i % 3, i) for i in range(6))
        A("Matrix%s" % t, "Array*", c, fill + "return a;", lambda p, s=s: ("arr", s))
        A("MatrixSet%s" % t, "Array*", c + [(t, "v")] + I("i", "j"), fill + "%sValue x(v); a->SetValue(&x, i, j); return a;" % t, lambda p, i, j, s=s: ("arr", s[:3 * i + j] + ["$7"] + s[3 * i + j + 1:]), ints=[(i, j) for i in range(2) for j in range(3)])
        A("MatrixGet%s" % t, t, c + I("i", "j"), fill + "return (%s) a->GetValue(i, j)->get_As%s();" % (t, get), lambda p, i, j, s=s: ("val", s[3 * i + j]), ints=[(i, j) for i in range(2) for j in range(3)])
        c, s = elems(12, t), sym(1, 12)
        fill = "Array* a = new Array(%sType, 2, 3, 2); " % t + "".join("*(%s*) a->Address(%d, %d, %d) = c%d; " % (t, i // 6, i // 2 % 3, i % 2, i) for i in range(12))
        A("Cube%s" % t, "Array*", c, fill + "return a;", lambda p, s=s: ("arr", s))
        A("CubeSet%s" % t, "Array*", c + [(t, "v")] + I("i", "j", "k"), fill + "%sValue x(v); a->SetValue(&x, i, j, k); return a;" % t, lambda p, i, j, k, s=s: ("arr", s[:6 * i + 2 * j + k] + ["$13"] + s[6 * i + 2 * j + k + 1:]),
          ints=[(i, j, k) for i in range(2) for j in range(3) for k in range(2)])
        A("CubeSetByList%s" % t, "Array*", c + [(t, "v")] + I("i", "j", "k"), fill + "%sValue x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a;" % t,
          lambda p, i, j, k, s=s: ("arr", s[:6 * i + 2 * j + k] + ["$13"] + s[6 * i + 2 * j + k + 1:]), ints=[(i, j, k) for i in range(2) for j in range(3) for k in range(2)])
        A("CubeGet%s" % t, t, c + I("i", "j", "k"), fill + "return (%s) a->GetValue(i, j, k)->get_As%s();" % (t, get), lambda p, i, j, k, s=s: ("val", s[6 * i + 2 * j + k]), ints=[(i, j, k) for i in range(2) for j in range(3) for k in range(2)])
        A("CopyMatrix%s" % t, "Array*", elems(6, t) + elems(6, t, "d") + I("i", "j", "k"), "Array* a = new Array(%sType, 2, 3); Array* b = new Array(%sType, 3, 2); " % (t, t) + "".join("*(%s*) a->Address(%d, %d) = c%d; *(%s*) b->Address(%d, %d) = d%d; " % (t, i // 3, i % 3, i, t, i // 2, i % 2, i) for i in range(6)) + "Array::Copy(a, i, b, j, k); return b;",
          lambda p, i, j, k: ("arr", sym(7, 6)[:j] + sym(1, 6)[i:i + k] + sym(7, 6)[j + k:]), ints=[(0, 0, 6), (1, 0, 5), (0, 2, 3), (3, 3, 3)])
    for n in range(1, 4):
        c, s = ch(n), sym(1, n)
        mk = "Array* a = new Array(ObjectType, %d); " % n + " ".join("*(Object**) a->Address(%d) = new CharValue(c%d);" % (i, i) for i in range(n))
        A("IndexOf%d" % n, "Int32", c + ch(1, "v") + I("st", "ct"), mk + " CharValue x(v0); return Array::IndexOf(a, &x, st, ct);", lambda p, st, ct, s=s, n=n: ("val", find(p, s, ["$%d" % (n + 1)], st, ct if ct >= 0 else len(s) - st)),
          ints=ranges(n) + [(i, -1) for i in range(n + 1)])
        mk = "Array* a = new Array(StringType, %d); " % n + " ".join("*(String**) a->Address(%d) = new String(c%d, 1);" % (i, i) for i in range(n))
        A("IndexOfString%d" % n, "Int32", c + ch(1, "v"), mk + " return Array::IndexOf(a, new String(v0, 1));", lambda p, s=s, n=n: ("val", find(p, s, ["$%d" % (n + 1)], 0, len(s))))
        mk = "Array* a = new Array(ObjectType, %d); " % (n + 1) + " ".join("*(Object**) a->Address(%d) = new CharValue(c%d);" % (i, i) for i in range(n))
        A("IndexOfNull%d" % n, "Int32", c, mk + " return Array::IndexOf(a, nullptr);", lambda p, n=n: ("val", n))
    for n in (3, 4):
        c, d = elems(n, "Byte"), elems(n, "Byte", "d")
        s, e = sym(1, n), sym(n + 1, n)
        moves = [(i, j, k) for k in range(n + 1) for i in range(n - k + 1) for j in range(n - k + 1)]
        A("BlockCopyWithin%d" % n, "Array*", c + I("i", "j", "k"), mkarr("a", c, "Byte") + "Buffer::BlockCopy(a, i, a, j, k); return a;", lambda p, i, j, k, s=s: ("arr", s[:j] + s[i:i + k] + s[j + k:]), ints=moves)
        A("BlockCopy%d" % n, "Array*", c + d + I("i", "j", "k"), mkarr("a", c, "Byte") + mkarr("b", d, "Byte") + "Buffer::BlockCopy(a, i, b, j, k); return b;", lambda p, i, j, k, s=s, e=e: ("arr", e[:j] + s[i:i + k] + e[j + k:]), ints=moves)
        A("BufferGet%d" % n, "Byte", c + I("i"), mkarr("a", c, "Byte") + "return Buffer::GetByte(a, i);", lambda p, i, s=s: ("val", s[i]), ints=[(i,) for i in range(n)])
        A("BufferSet%d" % n, "Array*", c + [("Byte", "v")] + I("i"), mkarr("a", c, "Byte") + "Buffer::SetByte(a, i, v); return a;", lambda p, i, s=s, n=n: ("arr", s[:i] + ["$%d" % (n + 1)] + s[i + 1:]), ints=[(i,) for i in range(n)])
        for t, w in (("Int16", 2), ("Int32", 4), ("Int64", 8)):
            c, d = elems(n, t), elems(n, t, "d")
            A("BlockCopy%s%d" % (t, n), "Array*", c + d + I("i", "j", "k"), mkarr("a", c, t) + mkarr("b", d, t) + "Buffer::BlockCopy(a, i * %d, b, j * %d, k * %d); return b;" % (w, w, w),
              lambda p, i, j, k, s=s, e=e: ("arr", e[:j] + s[i:i + k] + e[j + k:]), ints=[m for m in moves if m[2]])
            A("ByteLength%s%d" % (t, n), "Int32", [], "return Buffer::ByteLength(new Array(%sType, %d));" % (t, n), lambda p, n=n, w=w: ("val", n * w))
    # references move as they are
    for t, mk, get in (("String", "new String(%s, 1)", "((String*) %s)->get_Chars(0)"), ("Object", "new CharValue(%s)", "((CharValue*) %s)->get_AsChar()")):
        n = 3
        c, d, s, e = ch(n), ch(n, "d"), sym(1, n), sym(n + 1, n)
        fill = lambda v, x: "Array* %s = new Array(%sType, %d); " % (v, t, n) + "".join("*(%s**) %s->Address(%d) = %s; " % (t, v, i, mk % (x + str(i))) for i in range(n))
        moves = [(i, j, k) for k in range(1, n + 1) for i in range(n - k + 1) for j in range(n - k + 1)]
        for q in range(n):
            out = "return %s;" % (get % ("b->GetValue(%d)" % q))
            same = "return %s;" % (get % ("a->GetValue(%d)" % q))
            A("Copy%sTo%d" % (t, q), "Char", c + d + I("i", "j", "k"), fill("a", "c") + fill("b", "d") + "Array::Copy(a, i, b, j, k); " + out, lambda p, i, j, k, q=q, s=s, e=e, n=n: ("val", (e[:j] + s[i:i + k] + e[j + k:])[q]), ints=moves)
            A("Copy%sWithin%d" % (t, q), "Char", c + I("i", "j", "k"), fill("a", "c") + "Array::Copy(a, i, a, j, k); " + same, lambda p, i, j, k, q=q, s=s, e=e, n=n: ("val", (s[:j] + s[i:i + k] + s[j + k:])[q]), ints=moves)
            A("CopyAll%sTo%d" % (t, q), "Char", c + d, fill("a", "c") + fill("b", "d") + "a->CopyTo(b, 0); " + out, lambda p, q=q, s=s, e=e, n=n: ("val", s[q]))
            A("Set%s%d" % (t, q), "Char", c + ch(1, "v") + I("i"), fill("a", "c") + "a->SetValue(%s, i); " % (mk % "v0") + same, lambda p, i, q=q, s=s, e=e, n=n: ("val", "$%d" % (n + 1) if i == q else s[q]), ints=[(i,) for i in range(n)])
            A("Clear%s%d" % (t, q), "Boolean", c + I("i", "k"), fill("a", "c") + "Array::Clear(a, i, k); return a->GetValue(%d) == nullptr;" % q, lambda p, i, k, q=q: ("val", int(i <= q < i + k)), ints=ranges(n))
            A("New%s%d" % (t, q), "Boolean", [], "return (new Array(%sType, %d))->GetValue(%d) == nullptr;" % (t, n, q), lambda p: ("val", 1))
    # many elements
    for t in ("Byte", "Int16", "Int32", "Int64", "Double"):
        for n, k in ((40, 17), (100, 64), (300, 150)):
            c = elems(2, t)
            fill = "Array* a = new Array(%sType, %d); for (Int32 i = 0; i < %d; ++i) *(%s*) a->Address(i) = (%s)(i %% 100); *(%s*) a->Address(%d) = c0; *(%s*) a->Address(%d) = c1; " % (t, n, n, t, t, t, k, t, n - 1)
            s = [i % 100 for i in range(n)]
            s[k], s[n - 1] = "$1", "$2"
            if t == "Double":
                s = ["%d.0" % x if isinstance(x, int) else x for x in s]
            zero = "0.0" if t == "Double" else 0
            L = lambda name, body, model: A("Many%s%s%d" % (name, t, n), "Array*", c, fill + body, lambda p, model=model: ("arr", model))
            L("Same", "return a;", s)
            L("Copy", "Array* b = new Array(%sType, %d); Array::Copy(a, b, %d); return b;" % (t, n, n), s)
            L("CopyPart", "Array* b = new Array(%sType, %d); Array::Copy(a, %d, b, 1, %d); return b;" % (t, n, k - 1, n - k), [zero] + s[k - 1:n - 1] + [zero] * (k - 1))
            L("Constrained", "Array* b = new Array(%sType, %d); Array::ConstrainedCopy(a, %d, b, 1, %d); return b;" % (t, n, k - 1, n - k), [zero] + s[k - 1:n - 1] + [zero] * (k - 1))
            L("CopyTo", "Array* b = new Array(%sType, %d); a->CopyTo(b, 3); return b;" % (t, n + 4), [zero] * 3 + s + [zero])
            L("ShiftUp", "Array::Copy(a, 0, a, 1, %d); return a;" % (n - 1), s[:1] + s[:-1])
            L("ShiftDown", "Array::Copy(a, 1, a, 0, %d); return a;" % (n - 1), s[1:] + s[-1:])
            L("Clear", "Array::Clear(a, 2, %d); return a;" % (n - 4), s[:2] + [zero] * (n - 4) + s[n - 2:])
            if t != "Double":
                w = {"Byte": 1, "Int16": 2, "Int32": 4, "Int64": 8}[t]
                L("Block", "Array* b = new Array(%sType, %d); Buffer::BlockCopy(a, %d, b, %d, %d); return b;" % (t, n, (k - 1) * w, w, (n - k) * w), [zero] + s[k - 1:n - 1] + [zero] * (k - 1))
                L("BlockUp", "Buffer::BlockCopy(a, 0, a, %d, %d); return a;" % (w, (n - 1) * w), s[:1] + s[:-1])
            for d in (2, 3, 7, 8, 16, 20) if n == 40 else (8, 33, 64) if n == 100 else ():
                for up in (True, False):
                    after = s[:d] + s[:n - d] if up else s[d:] + s[n - d:]
                    L("Shift%s%dx" % ("Up" if up else "Down", d), "Array::Copy(a, %d, a, %d, %d); return a;" % (0 if up else d, d if up else 0, n - d), after)
                    if t != "Double":
                        L("Block%s%dx" % ("Up" if up else "Down", d), "Buffer::BlockCopy(a, %d, a, %d, %d); return a;" % (0 if up else d * w, d * w if up else 0, (n - d) * w), after)


arrays()


# ---- CharEnumerator ------------------------------------------------------------------------------------------
def enumerators():
    for n in range(0, 4):
        c, s = ch(n), sym(1, n)
        S = text("s", c) + " CharEnumerator* e = s->GetEnumerator(); "
        for k in range(0, n + 3):
            cur = ("val", s[k - 1]) if 1 <= k <= n else ("throws", "InvalidOperationException")
            op("Enumerate%d_%d" % (n, k), "Char", c, S + "e->MoveNext(); " * k + "return e->get_Current();", lambda p, r=cur: r, grp="Enumerator")
            op("MoveNext%d_%d" % (n, k), "Boolean", c, S + "e->MoveNext(); " * k + "return e->MoveNext();", lambda p, k=k, n=n: ("val", int(k < n)), grp="Enumerator")
            op("Reset%d_%d" % (n, k), "Char", c, S + "e->MoveNext(); " * k + "e->Reset(); return e->get_Current();", lambda p: ("throws", "InvalidOperationException"), grp="Enumerator")
            if n:
                op("Again%d_%d" % (n, k), "Char", c, S + "e->MoveNext(); " * k + "e->Reset(); e->MoveNext(); return e->get_Current();", lambda p, s=s: ("val", s[0]), grp="Enumerator")
        op("Walk%d" % n, "String*", c, S + "StringBuilder b; while (e->MoveNext()) b.Append(e->get_Current()); return b.ToString();", lambda p, s=s: ("text", s), grp="Enumerator")


enumerators()


def chars():
    """the overloads that look at one character of a text agree with those that are given the character"""
    for f in ("IsControl", "IsDigit", "IsNumber", "IsLetter", "IsLetterOrDigit", "IsLower", "IsUpper", "IsPunctuation", "IsSeparator", "IsWhiteSpace"):
        rng = {"IsControl": [(0, 31), (127, 127)], "IsDigit": [(48, 57)], "IsNumber": [(48, 57)], "IsLetter": [(65, 90), (97, 122)], "IsLetterOrDigit": [(48, 57), (65, 90), (97, 122)],
               "IsLower": [(97, 122)], "IsUpper": [(65, 90)], "IsPunctuation": [(33, 35), (37, 42), (44, 47), (58, 59), (63, 64), (91, 93), (95, 95), (123, 123), (125, 125)], "IsSeparator": [(32, 32)], "IsWhiteSpace": [(9, 13), (32, 32)]}[f]
        alts, at = [], 0
        for a, b in rng + [(128, 128)]:
            if at < a:
                alts.append((at, a - 1, 0))
            if a < 128:
                alts.append((a, b, 1))
            at = b + 1
        for n in (1, 2, 3):
            op("C%s%d" % (f, n), "Boolean", ch(n) + I("i"), text("s", ch(n)) + " return CharValue::%s(s, i);" % f,
               lambda p, i, alts=alts: ("val", p.choose([(["$%d >= %d" % (i + 1, a), "$%d <= %d" % (i + 1, b)], v) for a, b, v in alts])), [(i,) for i in range(n)], grp="Char")
    for n in (1, 2, 3):
        op("CGetNumericValue%d" % n, "Double", ch(n) + I("i"), text("s", ch(n)) + " return CharValue::GetNumericValue(s, i);",
           lambda p, i: ("val", p.choose([(["$%d == %d" % (i + 1, 48 + d)], "%d.0" % d) for d in range(10)] + [(["$%d >= 0" % (i + 1), "$%d <= 47" % (i + 1)], "-1.0"), (["$%d >= 58" % (i + 1)], "-1.0")])), [(i,) for i in range(n)], grp="Char")
    op("CToString", "String*", ch(1), "return CharValue::ToString(c0);", lambda p: ("text", ["$1"]), grp="Char")
    op("CBoxToString", "String*", ch(1), "CharValue v(c0); return v.ToString();", lambda p: ("text", ["$1"]), grp="Char")
    op("CParse", "Char", ch(1), text("s", ch(1)) + " return CharValue::Parse(s);", lambda p: ("val", "$1"), grp="Char")
    op("BoolText", "String*", [("Int32", "b")], "BooleanValue v(b != 0); return v.ToString();", lambda p, b: ("text", [ord(x) for x in ("True" if b else "False")]), [(0,), (1,)], grp="Char")
    for n in range(0, 7):
        def parse(p, n=n):
            word = {4: "true", 5: "false"}.get(n)
            for i in range(n if word else 0):
                c, k = "$%d" % (i + 1), ord(word[i])
                if not p.choose([(["%s == %d" % (c, k)], 1), (["%s == %d" % (c, k - 32)], 1), (["%s >= 33" % c, "%s < %d" % (c, k - 32)], 0), (["%s > %d" % (c, k - 32), "%s < %d" % (c, k)], 0), (["%s > %d" % (c, k), "%s <= 127" % c], 0)]):
                    word = None
                    break
            return ("val", int(n == 4)) if word else ("throws", "FormatException")
        op("BoolParse%d" % n, "Boolean", ch(n), text("s", ch(n)) + " return BooleanValue::Parse(s);", parse, pre=["$%d >= 33" % (i + 1) for i in range(n)] + ["$%d <= 127" % (i + 1) for i in range(n)], grp="Char")


chars()


# texts far longer than any internal memory of the library
def longstrings():
    c, pre = ch(3), ["$1 >= 256", "$2 >= 256", "$3 >= 256"]
    for k, m in ((5, 20), (60, 300), (126, 4), (127, 129), (254, 257)):
        mid, L = sym(1, 3), k + 3 + m
        s = [120] * k + mid + [121] * m
        S = text("c", c) + " String* s = String::Concat(new String(L'x', %d), c, new String(L'y', %d)); " % (k, m)
        lop = lambda name, ret, body, model: op("Long%s_%d_%d" % (name, k, m), ret, c, S + body, lambda p: model, pre=pre)
        z, zs = "String* z = new String(L'z', %d); " % m, [122] * m
        lop("Concat", "String*", "return s;", ("text", s))
        lop("Concat4", "String*", z + "return String::Concat(s, z, c, s);", ("text", s + zs + mid + s))
        lop("ConcatArray", "String*", z + "String* v[] = { s, z, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Concat(a);", ("text", s + zs + mid))
        lop("Join", "String*", z + "String* v[] = { s, c, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(z, a);", ("text", s + zs + mid + zs + s))
        lop("Copy", "String*", "return String::Copy(s);", ("text", s))
        lop("ToString", "String*", "return s->ToString();", ("text", s))
        lop("Insert", "String*", z + "return s->Insert(%d, z);" % (k + 1), ("text", s[:k + 1] + zs + s[k + 1:]))
        lop("InsertEnd", "String*", z + "return s->Insert(%d, z);" % L, ("text", s + zs))
        lop("Remove", "String*", "return s->Remove(%d, %d);" % (k - 4, m + 5), ("text", s[:k - 4] + s[k + m + 1:]))
        lop("RemoveRest", "String*", "return s->Remove(%d);" % (k + 4), ("text", s[:k + 4]))
        lop("Substring", "String*", "return s->Substring(%d, %d);" % (k - 2, m), ("text", s[k - 2:k - 2 + m]))
        lop("SubstringRest", "String*", "return s->Substring(%d);" % (k + 1), ("text", s[k + 1:]))
        lop("PadLeft", "String*", "return s->PadLeft(%d, L'p');" % (2 * L), ("text", [112] * L + s))
        lop("PadRight", "String*", "return s->PadRight(%d, L'p');" % (2 * L), ("text", s + [112] * L))
        lop("PadBlank", "String*", "return s->PadLeft(%d);" % (L + k), ("text", [32] * k + s))
        lop("Upper", "String*", "return String::Concat(s->Substring(0, %d), s->Substring(%d))->ToUpper();" % (k, k + 3), ("text", [88] * k + [89] * m))
        lop("Lower", "String*", "return String::Concat(s->Substring(0, %d), s->Substring(%d))->ToUpper()->ToLower();" % (k, k + 3), ("text", [120] * k + [121] * m))
        lop("Replace", "String*", "return s->Replace(L'y', L'w');", ("text", [120] * k + mid + [119] * m))
        lop("ReplaceText", "String*", 'return s->Replace(new String(L"y"), new String(L"abc"));', ("text", [120] * k + mid + [97, 98, 99] * m))
        lop("ReplaceDrop", "String*", 'return s->Replace(new String(L"x"), new String(L""));', ("text", mid + [121] * m))
        lop("ReplacePairs", "String*", 'return s->Replace(new String(L"xx"), new String(L"q"));', ("text", [113] * (k // 2) + [120] * (k % 2) + mid + [121] * m))
        lop("Trim", "String*", "return String::Concat(new String(L' ', %d), s, new String(L' ', %d))->Trim();" % (k, m), ("text", s))
        lop("TrimSet", "String*", "Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'x'; return s->Trim(a);", ("text", mid))
        lop("Chars", "Char", "return s->get_Chars(%d);" % (k + 2), ("val", "$3"))
        lop("CharsLast", "Char", "return s->get_Chars(%d);" % (L - 1), ("val", 121))
        lop("CharsPast", "Char", "return s->get_Chars(%d);" % L, ("throws", "IndexOutOfRangeException"))
        lop("IndexOf", "Int32", "return s->IndexOf(L'y');", ("val", k + 3))
        lop("IndexOfFrom", "Int32", "return s->IndexOf(L'y', %d);" % (L - 1), ("val", L - 1))
        lop("IndexOfText", "Int32", 'return s->IndexOf(new String(L"yy"));', ("val", k + 3))
        lop("IndexOfNot", "Int32", 'return s->IndexOf(new String(L"yx"));', ("val", -1))
        lop("IndexOfAny", "Int32", "Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'z'; return s->IndexOfAny(a);", ("val", k + 3))
        lop("LastIndexOf", "Int32", "return s->LastIndexOf(L'x');", ("val", k - 1))
        lop("LastIndexOfText", "Int32", 'return s->LastIndexOf(new String(L"xx"));', ("val", k - 2))
        lop("Contains", "Boolean", "return s->Contains(String::Concat(new String(L'y', %d), new String(L\"x\")));" % (m - 1), ("val", 0))
        lop("StartsWith", "Boolean", "return s->StartsWith(new String(L'x', %d));" % k, ("val", 1))
        lop("StartsWithNot", "Boolean", "return s->StartsWith(new String(L'x', %d));" % (k + 1), ("val", 0))
        lop("EndsWith", "Boolean", "return s->EndsWith(new String(L'y', %d));" % m, ("val", 1))
        lop("EndsWithNot", "Boolean", "return s->EndsWith(new String(L'y', %d));" % (m + 1), ("val", 0))
        lop("ToCharArray", "Array*", "return s->ToCharArray();", ("arr", s))
        lop("FromArray", "String*", "return new String(s->ToCharArray());", ("text", s))
        lop("FromArrayPart", "String*", "return new String(s->ToCharArray(), %d, %d);" % (k - 3, m), ("text", s[k - 3:k - 3 + m]))
        lop("CopyTo", "Array*", "Array* a = String::Concat(s, s)->ToCharArray(); s->CopyTo(%d, a, 2, %d); return a;" % (k - 1, m), ("arr", (s + s)[:2] + s[k - 1:k - 1 + m] + (s + s)[2 + m:]))
        lop("OrderLast", "Int32", "return String::CompareOrdinal(s, s->Remove(%d)->Insert(%d, new String(L\"z\")));" % (L - 1, L - 1), ("sign", -1))
        lop("OrderShort", "Int32", "return String::CompareOrdinal(s, s->Remove(%d));" % (L - 1), ("sign", 1))
        lop("EqualsLast", "Boolean", "return s->Equals(s->Remove(%d)->Insert(%d, new String(L\"z\")));" % (L - 1, L - 1), ("val", 0))
        lop("EqualsShort", "Boolean", "return s->Equals(s->Remove(%d));" % (L - 1), ("val", 0))
        lop("EqualsCopy", "Boolean", "return String::Equals(new String(L'x', %d), String::Concat(new String(L'x', %d), new String(L'x', %d)));" % (L, k, m + 3), ("val", 1))
        lop("Blank", "Boolean", "return String::IsNullOrWhiteSpace(String::Concat(new String(L' ', %d), new String(L'q', 1)));" % L, ("val", 0))
        lop("BlankAll", "Boolean", "return String::IsNullOrWhiteSpace(new String(L' ', %d));" % L, ("val", 1))

        # the same with characters of their own near the end, so that nothing that moves can go unnoticed
        e, L2 = ch(2, "e"), L + 19
        s2 = s + ["$4"] + [122] * 17 + ["$5"]
        T = S + "String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); "
        def top(name, ret, body, model, nm="%d_%d" % (k, m), T=T):
            op("LongEnd%s_%s" % (name, nm), ret, c + e, T + body, lambda p: model, pre=pre + ["$4 >= 256", "$5 >= 256", "$4 != $5"])
        top("Concat", "String*", "return String::Concat(t, c, t);", ("text", s2 + mid + s2))
        top("Insert", "String*", "return t->Insert(%d, c);" % (k + 1), ("text", s2[:k + 1] + mid + s2[k + 1:]))
        top("InsertFirst", "String*", "return t->Insert(0, c);", ("text", mid + s2))
        top("Remove", "String*", "return t->Remove(%d, %d);" % (k - 4, 6), ("text", s2[:k - 4] + s2[k + 2:]))
        top("RemoveFirst", "String*", "return t->Remove(0, 1);", ("text", s2[1:]))
        top("Substring", "String*", "return t->Substring(%d, %d);" % (k + 1, m + 10), ("text", s2[k + 1:k + m + 11]))
        top("SubstringRest", "String*", "return t->Substring(1);", ("text", s2[1:]))
        top("PadLeft", "String*", "return t->PadLeft(%d, L'p');" % (2 * L2), ("text", [112] * L2 + s2))
        top("PadRight", "String*", "return t->PadRight(%d, L'p');" % (2 * L2), ("text", s2 + [112] * L2))
        top("Replace", "String*", "return t->Replace(L'y', L'w');", ("text", [119 if x == 121 else x for x in s2]))
        top("ReplaceText", "String*", 'return t->Replace(new String(L"y"), new String(L"abc"));', ("text", s2[:k + 3] + [97, 98, 99] * m + s2[k + 3 + m:]))
        top("ReplaceDrop", "String*", 'return t->Replace(new String(L"x"), new String(L""));', ("text", s2[k:]))
        top("ReplacePairs", "String*", 'return t->Replace(new String(L"xx"), new String(L"q"));', ("text", [113] * (k // 2) + [120] * (k % 2) + s2[k:]))
        top("Trim", "String*", "return String::Concat(new String(L' ', %d), t, new String(L'q', 1), new String(L' ', %d))->Trim();" % (k, m), ("text", s2 + [113]))
        top("ToCharArray", "Array*", "return t->ToCharArray();", ("arr", s2))
        top("ToCharArrayPart", "Array*", "return t->ToCharArray(%d, %d);" % (k + 1, m + 10), ("arr", s2[k + 1:k + m + 11]))
        top("FromArrayPart", "String*", "return new String(t->ToCharArray(), %d, %d);" % (k + 1, m + 10), ("text", s2[k + 1:k + m + 11]))
        top("CopyTo", "Array*", "Array* a = t->ToCharArray(); t->CopyTo(%d, a, 1, %d); return a;" % (L + 1, 18), ("arr", s2[:1] + s2[L + 1:] + s2[19:]))
        top("Join", "String*", "String* v[] = { c, t, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(L',', a);", ("text", mid + [44] + s2 + [44] + mid))
        top("Chars", "Char", "return t->get_Chars(%d);" % (L2 - 1), ("val", "$5"))
        top("StartsWith", "Boolean", "return t->StartsWith(t->Substring(0, %d));" % (L2 - 1), ("val", 1))
        top("EndsWith", "Boolean", "return t->EndsWith(t->Substring(1));", ("val", 1))
        top("Builder", "String*", "StringBuilder* b = new StringBuilder(t); return b->ToString();", ("text", s2))
        top("EqualsLast", "Boolean", "return t->Equals(t->Substring(0, %d)->Insert(%d, new String(e0, 1)));" % (L2 - 1, L2 - 1), ("val", 0))
        top("EqualsNext", "Boolean", "return t->Equals(t->Substring(0, %d)->Insert(%d, String::Concat(new String(L'q', 1), new String(e1, 1))));" % (L2 - 2, L2 - 2), ("val", 0))
        top("EqualsAll", "Boolean", "return t->Equals(t->Substring(0, 1)->Insert(1, t->Substring(1)));", ("val", 1))


longstrings()


def raw(o, t):
    """integers of unsigned types are compared in their signed reading"""
    import re
    for i, (ty, _) in enumerate(o["params"]):
        if ty in ("Byte", "UInt16", "UInt32", "UInt64") and o["grp"] == "Array":
            t = re.sub(r"\$%d(?![0-9])" % (i + 1), "$%d.value" % (i + 1), t)
    if o["grp"] == "Array" and o["ret"] in ("Byte", "UInt16", "UInt32", "UInt64"):
        t = t.replace("ret ==", "ret.value ==")
    return t


def expect(r):
    k, v = r
    if k == "throws":
        return "throws " + v
    if k == "val":
        return "returns, ret == %s" % v
    if k == "sign":
        return "returns, ret %s 0" % {-1: "<", 0: "==", 1: ">"}[v]
    o = ["returns", "ret.length == %d" % len(v)] + ["ret[%d] == %s" % (i, x) for i, x in enumerate(v)]
    if k == "arr":
        o[1] = "ret.total == %d" % len(v)
    if k == "sb":
        o[1] = "ret.len == %d" % len(v)
    if k in ("text", "sb"):
        o.append("ret[%d] == 0" % len(v))
    return ", ".join(o)


def spec(grp):
    out = []
    for o in OPS:
        if o["grp"] != grp:
            continue
        out.append("fn Laws::%s(%s)" % (o["name"], ",".join(C[t] for t, _ in o["params"])))
        free = [i + 1 for i, (t, _) in enumerate(o["params"]) if t == "Char"]
        first = len(o["params"]) - (len(o["ints"][0]) if o["ints"] else 0)
        for vals in o["ints"]:
            base = ["$%d >= %d" % (i, o["name"].startswith("MakePart")) for i in free] + o["pre"] + ["$%d == %d" % (first + i + 1, v) for i, v in enumerate(vals)]
            for conds, r in paths(o["model"], *vals):
                cs = base + conds
                out.append(("if " + ", ".join(cs) if cs else "always") + " => " + raw(o, expect(r)))
    return out


if __name__ == "__main__":
    for g in sorted({x["grp"] for x in OPS}):
        o = ["// Written by gen_text.py. Never executed: analysed together with the library by absint against spec/text.py.",
             '#include "DotnetTypes.h"', "using namespace DotnetLibrary;", "namespace Laws", "{"]
        for x in OPS:
            if x["grp"] == g:
                o.append("\t%s %s(%s) { %s }" % (x["ret"], x["name"], ", ".join("%s %s" % p for p in x["params"]), x["body"]))
        o.append("}")
        open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "text_%s.cpp" % g.lower()), "w").write("\n".join(o) + "\n")
