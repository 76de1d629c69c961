# When exactly one thing about a call is wrong, the kind of the error says which.
# N null argument, R out of range, I index out of range, L range error of either kind, A argument that cannot be used, K wrong number of dimensions.
KIND = {"N": "ArgumentNullException", "R": "ArgumentOutOfRangeException", "I": "IndexOutOfRangeException", "L": "ArgumentOutOfRangeException / IndexOutOfRangeException",
        "A": "ArgumentException / !ArgumentNullException", "K": "RankException"}
out = []


def F(sig, *aspects):
    """aspects: (what holds when it is right, [(fault, kind, what else the argument has to be)])"""
    out.append("fn " + sig)
    for k, (_, faults) in enumerate(aspects):
        for fault, kind, local in faults:
            gone = fault.split()[0] if fault.endswith("is null") else "none"
            conds = [fault] + [c for j, b in enumerate(aspects) if j != k for c in b[0]] + local
            out.append("if %s => throws %s" % (", ".join(c for c in conds if c == fault or gone not in c.split() and gone + "." not in c), KIND[kind]))


def null(*ps):
    return [(["%s is not null" % p], [("%s is null" % p, "N", [])]) for p in ps]


def at(i, n, kind="R", end=0):
    """an index below n (or at it)"""
    return [(["%s >= 0" % i, "%s %s %s" % (i, "<=" if end else "<", n)], [("%s < 0" % i, kind, []), ("%s %s %s" % (i, ">" if end else ">=", n), kind, [])])]


def span(st, ct, n, kind="R", low="R", rest=False):
    """start and count inside n; rest: a negative count asks for everything that follows"""
    return [(["%s >= 0" % st, "%s >= 0" % ct, "%s + %s <= %s" % (st, ct, n)],
             [("%s < 0" % st, low, ["%s == 0" % ct] if rest else ["%s >= 0" % ct, "%s <= %s" % (ct, n)]),
              ("%s + %s > %s" % (st, ct, n), kind, ["%s >= 0" % st, "%s >= 0" % ct])]
             + ([] if rest else [("%s < 0" % ct, low, ["%s >= 0" % st, "%s <= %s" % (st, n)])]))]


def one(a, kind="K"):
    return [(["%s.rank == 1" % a], [("%s.rank == 2" % a, kind, []), ("%s.rank == 3" % a, kind, [])])]


def chars(a):
    return one(a) + [(["%s.type == 3" % a], [("%s.type == %d" % (a, t), "A", []) for t in (1, 8, 17)])]


def refs(a):
    return one(a) + [(["%s.type == 17" % a], [("%s.type == %d" % (a, t), "A", []) for t in (3, 8)])]


def primitive(a):
    return one(a) + [(["%s.type == 5" % a], [("%s.type == %d" % (a, t), "A", []) for t in (1, 17)])]


# ---- Array, Buffer
F("Array::Clear(Array*, int, int)", *null("$1"), *one("$1"), *span("$2", "$3", "$1.total"))
for f in ("Copy", "ConstrainedCopy"):
    F("Array::%s(Array*, int, Array*, int, int)" % f, *null("$1", "$3"), (["$1.type == 8", "$3.type == 8", "$1.rank == 1", "$3.rank == 1"], [("$1.rank == 2", "K", ["$3.rank == 1"]), ("$3.rank == 2", "K", ["$1.rank == 1"])]),
      (["$2 >= 0", "$4 >= 0", "$5 >= 0", "$2 + $5 <= $1.total", "$4 + $5 <= $3.total"],
       [("$5 < 0", "R", ["$2 == 0", "$4 == 0"]), ("$2 < 0", "A", ["$4 == 0", "$5 == 0"]), ("$4 < 0", "A", ["$2 == 0", "$5 == 0"]),
        ("$2 + $5 > $1.total", "A", ["$2 >= 0", "$5 >= 0", "$4 == 0", "$5 <= $3.total"]), ("$4 + $5 > $3.total", "A", ["$4 >= 0", "$5 >= 0", "$2 == 0", "$5 <= $1.total"])]))
F("Array::Copy(Array*, Array*, int)", *null("$1", "$2"), (["$3 >= 0", "$3 <= $1.total", "$3 <= $2.total"], [("$3 < 0", "R", []), ("$3 > $1.total", "A", []), ("$3 > $2.total", "A", [])]))
F("Array::CopyTo(Array*, int)", *null("$1"), *one("$1"), (["$2 >= 0", "$2 + this.total <= $1.total"], [("$2 < 0", "R", []), ("$2 + this.total > $1.total", "R", ["$2 >= 0"])]))
F("Array::IndexOf(Array*, Object*, int, int)", *null("$1"), *one("$1"), *span("$3", "$4", "$1.total", rest=True))
F("Array::GetLength(int)", *at("$1", "this.rank", "I"))
F("Array::GetLowerBound(int)", *at("$1", "this.rank", "I"))
F("Array::GetUpperBound(int)", *at("$1", "this.rank", "I"))
F("Array::Array(DataType, int, int, int)", (["$2 >= 0"], [("$2 < 0", "R", [])]), (["$3 >= 1"], [("$3 < -1", "R", [])]), (["$4 >= 1"], [("$4 < -1", "R", [])]))
for f, v, i, j, k in (("GetValue(int, int, int)", [], "$1", "$2", "$3"), ("Address(int, int, int)", [], "$1", "$2", "$3"), ("SetValue(Object*, int, int, int)", null("$1"), "$2", "$3", "$4")):
    F("Array::" + f, *v, *[(["this.rank == 1", i + " >= 0", i + " < this.dim1", j + " == -1", k + " == -1"], [(c, "I", ["this.rank == 1", j + " == -1", k + " == -1"]) for c in (i + " < 0", i + " >= this.dim1")]
        + [(c, "I", ["this.rank == 2", k + " == -1", i + " >= 0", i + " < this.dim1"]) for c in (j + " < 0", j + " >= this.dim2")]
        + [(c, "I", ["this.rank == 3", i + " >= 0", i + " < this.dim1", j + " >= 0", j + " < this.dim2"]) for c in (k + " < 0", k + " >= this.dim3")]
        + [("this.rank == 1", "I", [i + " >= 0", i + " < this.dim1", j + " >= 0"])])])
F("Array::GetValue(Array*)", *null("$1"))
F("Array::SetValue(Object*, Array*)", *null("$2"))
F("Buffer::BlockCopy(Array*, int, Array*, int, int)", *null("$1", "$3"), *primitive("$1"), *primitive("$3"), (["$2 == 0", "$4 == 0", "$5 == 0"],
  [("$2 < 0", "R", ["$4 == 0", "$5 == 0"]), ("$4 < 0", "R", ["$2 == 0", "$5 == 0"]), ("$5 < 0", "R", ["$2 == 0", "$4 == 0"]), ("$2 > $1.total", "A", ["$4 == 0", "$5 == 0"]), ("$4 > $3.total", "A", ["$2 == 0", "$5 == 0"]),
   ("$5 > $1.total", "A", ["$2 == 0", "$4 == 0"]), ("$5 > $3.total", "A", ["$2 == 0", "$4 == 0"])]))
F("Buffer::ByteLength(Array*)", *null("$1"), *primitive("$1"))
F("Buffer::GetByte(Array*, int)", *null("$1"), *primitive("$1"), *at("$2", "$1.total"))
F("Buffer::SetByte(Array*, int, unsigned char)", *null("$1"), *primitive("$1"), *at("$2", "$1.total"))

# ---- String
F("String::String(wchar_t const*, int, int)", (["$2 >= 0"], [("$2 < 0", "R", ["$1 is not null", "$3 > 0"])]))
F("String::String(wchar_t, int)", ([], [("$2 < 0", "R", [])]))
F("String::String(Array*, int, int)", (["$1 is not null", "$3 > 0"], []), *chars("$1"), (["$2 >= 0", "$2 + $3 <= $1.total"], [("$2 + $3 > $1.total", "R", ["$2 >= 0"])]))
ns = ["$1 is not null", "$3 is not null"]
five = (["$2 >= 0", "$4 >= 0", "$5 >= 0", "$2 <= $1.length", "$4 <= $3.length"], [("$5 < 0", "R", ns + ["$2 == 0", "$4 == 0"]), ("$2 < 0", "R", ns + ["$4 == 0", "$5 > 0"]), ("$4 < 0", "R", ns + ["$2 == 0", "$5 > 0"]),
        ("$2 > $1.length", "R", ns + ["$4 == 0", "$5 > 0"]), ("$4 > $3.length", "R", ns + ["$2 == 0", "$5 > 0"])])
for f in ("Compare(String*, int, String*, int, int, bool, bool)", "Compare(String*, int, String*, int, int, bool)", "CompareOrdinal(String*, int, String*, int, int)"):
    F("String::" + f, five)
F("String::Concat(Array*)", *null("$1"), *refs("$1"))
for f in ("Contains", "Copy", "StartsWith", "EndsWith", "IndexOf"):
    F("String::%s(String*)" % f, *null("$1"))
F("String::CopyTo(int, Array*, int, int)", *null("$2"), *chars("$2"), (["$1 >= 0", "$3 >= 0", "$4 >= 0", "$1 + $4 <= this.length", "$3 + $4 <= $2.total"],
  [("$1 < 0", "R", ["$3 == 0", "$4 == 0"]), ("$3 < 0", "R", ["$1 == 0", "$4 == 0"]), ("$4 < 0", "R", ["$1 == 0", "$3 == 0"]),
   ("$1 + $4 > this.length", "R", ["$1 >= 0", "$4 >= 0", "$3 == 0", "$4 <= $2.total"]), ("$3 + $4 > $2.total", "R", ["$3 >= 0", "$4 >= 0", "$1 == 0", "$4 <= this.length"])]))
F("String::get_Chars(int)", *at("$1", "this.length", "I"))
F("String::IndexOf(wchar_t, int)", *at("$2", "this.length", end=1))
F("String::IndexOf(wchar_t, int, int)", *span("$2", "$3", "this.length"))
F("String::IndexOf(String*, int)", *null("$1"), *at("$2", "this.length", end=1))
F("String::IndexOf(String*, int, int)", *null("$1"), *span("$2", "$3", "this.length"))
F("String::IndexOfAny(Array*)", *null("$1"), *chars("$1"))
F("String::IndexOfAny(Array*, int)", *null("$1"), *chars("$1"), *at("$2", "this.length", end=1))
F("String::IndexOfAny(Array*, int, int)", *null("$1"), *chars("$1"), *span("$2", "$3", "this.length"))
F("String::Insert(int, String*)", *null("$2"), *at("$1", "this.length", end=1))
for f in ("wchar_t", "String*"):
    F("String::Join(%s, Array*, int, int)" % f, *null("$2"), (["$2.total > 0"], []), *refs("$2"), *span("$3", "$4", "$2.total", rest=True))
back = lambda st, ct: (["this.length > 0", st + " == 0", ct + " == 0"], [(st + " >= this.length", "R", ["this.length > 0", ct + " == 0"]), (ct + " > " + st + " + 1", "R", [st + " >= 0", st + " < this.length"])])
F("String::LastIndexOf(wchar_t, int, int)", back("$2", "$3"))
F("String::LastIndexOf(String*, int, int)", *null("$1"), back("$2", "$3"))
F("String::LastIndexOfAny(Array*, int, int)", *null("$1"), *chars("$1"), back("$2", "$3"))
for f in ("PadLeft", "PadRight"):
    F("String::%s(int, wchar_t)" % f, ([], [("$1 < 0", "R", [])]))
for f in ("Remove", "Substring", "ToCharArray"):
    F("String::%s(int, int)" % f, *span("$1", "$2", "this.length", rest=True))
F("String::Replace(String*, String*)", (["$1.length > 0"], [("$1 is null", "N", []), ("$1.length == 0", "A", [])]))
for f in ("Trim", "TrimEnd", "TrimStart"):
    F("String::%s(Array*)" % f, (["$1 is not null", "$1.total > 0"], []), *chars("$1"))
F("CharEnumerator::get_Current()", (["this.index >= 0"], []))

# ---- StringBuilder
F("StringBuilder::get_Chars(int)", *at("$1", "this.len", "I"))
F("StringBuilder::set_Chars(int, wchar_t)", *at("$1", "this.len", "L"))
F("StringBuilder::ToString(int, int)", *span("$1", "$2", "this.len", "L", "L"))
F("StringBuilder::Append(wchar_t, int)", ([], [("$2 < 0", "R", []), ("this.len + $2 > this.max", "R", ["$2 > 0"])]))
F("StringBuilder::Append(wchar_t)", ([], [("this.len == this.max", "R", [])]))
F("StringBuilder::Append(Array*, int, int)", (["$1 is not null", "$3 > 0"], []), *chars("$1"), (["$2 >= 0", "$2 + $3 <= $1.total"], [("$2 + $3 > $1.total", "R", ["$2 >= 0"])]), (["this.len + $3 <= this.max"], [("this.len + $3 > this.max", "R", [])]))
F("StringBuilder::Append(String*, int, int)", (["$1 is not null"], []), (["$2 >= 0", "$3 >= 0", "$2 + $3 <= $1.length"], [("$2 < 0", "R", ["$3 == 0"]), ("$2 + $3 > $1.length", "R", ["$2 >= 0", "$3 >= 0"])]),
  (["this.len + $3 <= this.max"], [("this.len + $3 > this.max", "R", ["$3 > 0"])]))
F("StringBuilder::AppendLine()", ([], [("this.len + 2 > this.max", "R", [])]))
F("StringBuilder::AppendLine(String*)", (["$1 is not null"], [("this.len + $1.length + 2 > this.max", "R", ["$1 is not null"])]))
F("StringBuilder::Remove(int, int)", *span("$1", "$2", "this.len"))
for f in ("wchar_t", "bool", "int", "Object*"):
    F("StringBuilder::Insert(int, %s)" % f, ([], [("$1 < 0", "L", []), ("$1 > this.len", "L", [])]))
F("StringBuilder::Insert(int, String*, int)", (["$3 >= 0"], [("$3 < 0", "R", [])]), *at("$1", "this.len", "L", end=1))
F("StringBuilder::Insert(int, Array*, int, int)", (["$2 is not null", "$4 > 0"], []), *chars("$2"), *at("$1", "this.len", "L", end=1), (["$3 >= 0", "$3 + $4 <= $2.total"], [("$3 + $4 > $2.total", "R", ["$3 >= 0"])]))
F("StringBuilder::Replace(wchar_t, wchar_t, int, int)", *span("$3", "$4", "this.len"))
F("StringBuilder::Replace(String*, String*)", (["$1.length > 0"], [("$1 is null", "N", []), ("$1.length == 0", "A", [])]))
F("StringBuilder::Replace(String*, String*, int, int)", (["$1.length > 0"], [("$1 is null", "N", []), ("$1.length == 0", "A", [])]), *span("$3", "$4", "this.len"))
F("StringBuilder::set_Length(int)", ([], [("$1 < 0", "R", []), ("$1 > this.max", "R", [])]))
F("StringBuilder::set_Capacity(int)", ([], [("$1 < this.len", "R", []), ("$1 > this.max", "R", [])]))
F("StringBuilder::EnsureCapacity(int)", ([], [("$1 < 0", "R", []), ("$1 > this.max", "R", [])]))
print("\n".join(out))
