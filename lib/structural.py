"""Structural rules over the linked module: effects on globals, initialisation order, exception types, class hierarchy.

Every rule works on the facts absint/facts.cpp extracts from the IR (definitions, calls, writes and reads of globals
through any chain of casts, element addresses and parameters, thrown types, type information); none looks at source text."""
import json, os, re, shutil, subprocess, tempfile
import build

_cache = {}


def facts(bc):
    if bc not in _cache:
        p = subprocess.run([build.TOOL, bc, "--facts"], capture_output=True, text=True)
        if p.returncode:
            raise build.Broken("facts: " + p.stderr[-500:])
        d = {}
        for l in p.stdout.splitlines():
            r = json.loads(l)
            d.setdefault(r["k"], []).append(r)
        _cache[bc] = d
    return _cache[bc]


def short(s):
    return s.replace("DotnetLibrary::", "")


def _init_functions(F):
    """functions that only run while the program is loaded: initialisers of globals and what only they call is not included"""
    return {f["name"] for f in F["fn"] if f["name"].startswith("__cxx_global_var_init") or f["name"].startswith("_GLOBAL__")}


def _guarded(F):
    """function level statics: written once, under their guard"""
    return {g["name"][len("_ZGV"):] for g in F["gv"] if g["name"].startswith("_ZGV")}


def _v(fn, where, msg):
    return {"fn": fn, "file": where.get("file", ""), "line": where.get("line", 0), "msg": msg}


def stateless(bc, srcs, fns, sel, allowed=("/PlatformSupport/",)):
    """no function writes a global or static variable, except while it is initialised and in the given files"""
    F = facts(bc); gv = {g["name"]: g for g in F["gv"]}
    init, guarded = _init_functions(F), _guarded(F)
    fdef = [f for f in F["fn"] if not f["decl"] and f["name"] not in init and os.path.join(build.VERIF, "harness") not in f["file"]]
    names = {f["name"] for f in fdef}; bad = []
    for w in F.get("write", []):
        g = gv.get(w["gv"], {})
        if w["fn"] not in names or w["gv"].startswith("_ZGV") or w["gv"][2:] in guarded or any(a in g.get("file", "") for a in allowed):
            continue
        bad.append(_v(w["dem"], w, "writes the global variable %s" % short(g.get("dem", w["gv"]))))
    # one violation per function, variable and place
    uniq = {(b["fn"], b["file"], b["line"], b["msg"]): b for b in bad}
    return {"rule": "stateless", "obligations": len(fdef), "violations": list(uniq.values()),
            "examples": [{"function": short(f["dem"]), "writes to globals": 0} for f in fdef[:3]]}


def constants(bc, srcs, fns, sel):
    """static members of the library are written only by their own initialiser, which reads no variable of another
    source file that is itself initialised at run time"""
    F = facts(bc); init = _init_functions(F)
    members = {g["name"]: g for g in F["gv"] if g["member"] and not g["decl"]}
    bad = []
    for w in F.get("write", []):
        if w["gv"] in members and w["fn"] not in init:
            bad.append(_v(w["dem"], w, "writes the constant %s" % short(members[w["gv"]]["dem"])))
    # variables initialised at run time: written by an initialiser, or handed to a constructor by one
    gv = {g["name"]: g for g in F["gv"]}
    dyn = {w["gv"] for w in F.get("write", []) if w["fn"] in init}
    calls, reads = {}, {}
    for c in F["call"]:
        calls.setdefault(c["fn"], set()).add(c["callee"])
    for r in F.get("read", []):
        reads.setdefault(r["fn"], []).append(r)
    ffile = {f["name"]: f["file"] for f in F["fn"]}
    n = 0
    for f in sorted(init):
        home = ffile.get(f, "")
        if not home:
            continue
        seen, todo = set(), [f]
        while todo:
            x = todo.pop()
            if x in seen or not x:
                continue
            seen.add(x); todo += calls.get(x, ())
            for r in reads.get(x, ()):
                g = gv.get(r["gv"])
                n += 1
                if g and r["gv"] in dyn and g["file"] and g["file"] != home:
                    bad.append(_v(f if x == f else x, r, "initialiser in %s reads %s, which %s initialises at run time" % (os.path.basename(home), short(g["dem"]), os.path.basename(g["file"]))))
    uniq = {(b["fn"], b["file"], b["line"], b["msg"]): b for b in bad}
    return {"rule": "constants", "obligations": len(members) + n, "violations": list(uniq.values()),
            "examples": [{"constant": short(g["dem"]), "written by": "its initialiser only"} for g in list(members.values())[:4]]}


# --- the interface translated programs are compiled against -----------------------------------------------------------
PRIM = {"Boolean": "bool", "Char": "wchar_t", "Byte": "unsigned char", "SByte": "signed char", "Int16": "short", "UInt16": "unsigned short",
        "Int32": "int", "UInt32": "unsigned int", "Int64": "long", "UInt64": "unsigned long", "Single": "float", "Double": "double",
        "DateTime": "DateTime", "TimeSpan": "TimeSpan", "void": "void"}
EXCEPTIONS = ("Exception ArgumentException ArgumentNullException ArgumentOutOfRangeException ArithmeticException DivideByZeroException FormatException "
              "IndexOutOfRangeException InvalidCastException InvalidOperationException OverflowException RankException").split()


def _dotnet_result(cls, name, args):
    """the result type .NET documents for a member"""
    T, n = cls, name
    if n == ".ctor":
        return "void"
    if re.match(r"Is[A-Z]|op_(Equality|Inequality|Less|Greater)|(Equals|TryParse|Contains|StartsWith|EndsWith|MoveNext|ToBoolean)$", n):
        return "Boolean"
    if n == "ToString" or (cls in ("String",) and re.match(r"(Concat|Copy|Insert|Join|Pad\w+|Remove|Replace|Substring|ToLower\w*|ToUpper\w*|Trim\w*)$", n)):
        return "String*"
    if n in ("CompareTo", "Compare", "CompareOrdinal", "ByteLength", "GetLength", "GetLowerBound", "GetUpperBound", "get_Rank", "EnsureCapacity", "DaysInMonth", "ILogB", "Sign") or "IndexOf" in n:
        return "Int32"
    if re.match(r"get_(Capacity|Length|MaxCapacity|Days?|DayOfYear|Hours?|Minutes?|Seconds?|Milliseconds?|Month|Year)$", n):
        return "Int32"
    if re.match(r"get_Total|GetNumericValue$", n):
        return "Double"
    if n == "get_Ticks":
        return "Int64"
    if n == "get_DayOfWeek":
        return "DayOfWeek"
    if n in ("get_Chars", "get_Current"):
        return "Char"
    if n.startswith("set_") or n in ("SetValue", "SetByte", "BlockCopy", "ConstrainedCopy", "Reset", "CopyTo"):
        return "void"
    if cls == "Array" and n in ("Clear", "Copy"):
        return "void"
    if n == "GetValue":
        return "Object*"
    if n in ("GetBytes", "ToCharArray"):
        return "Array*"
    if n == "GetByte":
        return "Byte"
    if n == "GetEnumerator":
        return "CharEnumerator*"
    if cls == "StringBuilder":
        return "StringBuilder*"
    if cls == "BitConverter" and n.startswith("To"):
        return n[2:]
    if n == "Parse" or (cls == "Char" and n in ("ToLower", "ToUpper")):
        return T
    if cls == "Math":
        if n in ("Abs", "Max", "Min", "Clamp"):
            return args[0]
        if n == "BigMul":
            return "Int64"
        if n == "DivRem":
            return args[0]
        return "Double"
    if cls == "TimeSpan":
        if n in ("Divide", "op_Division"):
            return "Double" if args[-1] == "TimeSpan" else "TimeSpan"
        return "TimeSpan"
    if cls == "DateTime":
        if n == "get_TimeOfDay" or (n in ("Subtract", "op_Subtraction") and args[-1] == "DateTime"):
            return "TimeSpan"
        return "DateTime"
    return None


def _admitted():
    """members ValidTypes.xml admits: (item, class, member, argument types)"""
    t = open(os.path.join(build.REPO, "CppTranslator/ValidTypes.xml"), encoding="utf-8-sig").read()
    items = []
    for m in re.finditer(r"<Valid>\s*([^<]*?)\s*</Valid>", t):
        s = m.group(1)
        if "(" not in s:
            continue
        head, args = s[:-1].split("(", 1)
        cls, name = (head[:-6], ".ctor") if head.endswith("..ctor") else head.rsplit(".", 1)
        a = [x for x in re.split(r",(?![^\[]*\])", args) if x]
        bare = lambda n: n.replace("System.Text.", "").replace("System.", "")
        def ty(n):
            n = bare(n)
            ref = n.endswith("&"); n = n.rstrip("&")
            if "[" in n:
                n = "Array*"
            elif n not in PRIM and n not in ("MidpointRounding", "DayOfWeek"):
                n += "*"
            return n + ("&" if ref else "")
        items.append((s, "Array" if "[" in cls else bare(cls), name, [ty(x) for x in a]))
    return items


def interface(bc, srcs, fns, sel):
    """type-level witnesses: what the translator admits and emits compiles against the library, binds to a function the
    library defines, with the parameter and result types .NET documents"""
    work = tempfile.mkdtemp(prefix="verif_witness_")
    try:
        W = []      # (label, function definition, expected result or None, expected parameter types or None, callee pattern)
        bad, skipped = [], []
        for i, (s, cls, name, args) in enumerate(_admitted()):
            C = cls + "Value" if cls in PRIM else cls
            # the translator drops op_Implicit and writes == of strings as Equals
            if name == "op_Implicit":
                skipped.append(s); continue
            n = "Equals" if (cls, name) == ("String", "op_Equality") else name
            want = _dotnet_result(cls, name, [a.rstrip("&") for a in args])
            if want is None:
                raise build.Broken("no documented result type known for " + s)
            par = ", ".join("%s a%d" % (t, k) for k, t in enumerate(args))
            use = ", ".join("a%d" % k for k in range(len(args)))
            e = "new %s(%s)" % (C, use) if n == ".ctor" else "self->%s::%s(%s)" % (C, n, use)
            W.append((s, "%s *self%s" % (C, ", " + par if par else ""), e, want if n != ".ctor" else C + "*", args, C + "::" + (C if n == ".ctor" else n)))
        # glue the translator writes by itself
        for p in PRIM:
            if p == "void":
                continue
            W.append(("unboxing to " + p, "Object *o", "o->get_As%s()" % p, p, [], "Object::get_As" + p))
            W.append(("boxing of " + p, p + " x", "static_cast<Object*>(new %sValue(x))" % p, "Object*", None, p + "Value::" + p + "Value"))
            for k in (1, 2, 3):
                W.append(("new array of %s, rank %d" % (p, k), ", ".join("Int32 n%d" % j for j in range(k)), "new Array(%sType, %s)" % (p, ", ".join("n%d" % j for j in range(k))), "Array*", None, "Array::Array"))
                W.append(("element of %s array, rank %d" % (p, k), "Array *a, " + ", ".join("Int32 n%d" % j for j in range(k)), "(*((%s*)a->Address(%s)))" % (p, ", ".join("n%d" % j for j in range(k))), p + "&", None, "Array::Address"))
        for p in ("Object", "String"):
            W.append(("new array of " + p, "Int32 n", "new Array(%sType, n)" % p, "Array*", None, "Array::Array"))
            W.append(("element of %s array" % p, "Array *a, Int32 n", "(*((%s**)a->Address(n)))" % p, p + "*&", None, "Array::Address"))
        W.append(("length of an array", "Array *a", "a->get_Length()", "Int32", [], "Array::get_Length"))
        W.append(("integer division", "Int64 x, Int64 y", "Math::Divide((Int64)x, (Int64)y)", "Int64", ["Int64", "Int64"], "Math::Divide"))
        W.append(("floating point division", "Double x, Double y", "Math::Divide((Double)x, (Double)y)", "Double", ["Double", "Double"], "Math::Divide"))
        W.append(("floating point remainder", "Double x, Double y", "DoubleValue::Modulus(x, y)", "Double", ["Double", "Double"], "DoubleValue::Modulus"))
        W.append(("string literal", "", "new String(L\"x\")", "String*", None, "String::String"))
        W.append(("text of characters", "Array *a", "new String(a)", "String*", None, "String::String"))
        for x in EXCEPTIONS:
            W.append(("exception " + x, "", "new " + x + "()", x + "*", [], x + "::" + x))
            W.append(("exception %s is an Exception" % x, x + " *x", "static_cast<Exception*>(x)", "Exception*", None, None))
        for p in "Byte SByte Int16 UInt16 Int32 UInt32 Int64 UInt64 Single Double".split():
            for m in ("MaxValue", "MinValue"):
                W.append(("constant %s.%s" % (p, m), "", "+%sValue::%s" % (p, m), None, None, None))
        for c in ("DoubleValue::NaN", "DoubleValue::PositiveInfinity", "DoubleValue::NegativeInfinity", "DoubleValue::Epsilon", "SingleValue::Epsilon"):
            W.append(("constant " + c, "", "+" + c, None, None, None))
        head = ['#include "DotnetTypes.h"', '#include "PlatformSupport.h"', "using namespace DotnetLibrary;",
                "template<class A, class B> struct absint_same { static const bool yes = false; };",
                "template<class A> struct absint_same<A, A> { static const bool yes = true; };"]
        out = {}
        live = list(range(len(W)))
        src, obj = os.path.join(work, "witness.cpp"), os.path.join(work, "witness.bc")
        inc = ["-I%s/%s" % (build.REPO, d) for d in ("DotNetLibrary/include", "PlatformSupport", "DotNetLibrarySupport")]
        for attempt in (0, 1):
            lines = list(head); at = {}
            for i in live:
                label, par, e, want, args, callee = W[i]
                at[len(lines) + 1] = i
                lines.append('extern "C" void absint_w%d(%s) { (void)(%s); }' % (i, par, e))
                if want and attempt == 0:
                    at[len(lines) + 1] = i
                    lines.append('void absint_r%d(%s) { static_assert(absint_same<decltype(%s), %s>::yes, "result type"); }' % (i, par, e, want))
            open(src, "w").write("\n".join(lines) + "\n")
            p = subprocess.run(["clang++-18", "-std=gnu++11", "-w", "-g", "-O0", "-fwrapv", "-ferror-limit=0", "-emit-llvm", "-c"] + inc + [src, "-o", obj], capture_output=True, text=True)
            if p.returncode == 0:
                break
            for l in p.stderr.splitlines():
                m = re.match(re.escape(src) + r":(\d+):\d+: error: (.*)", l)
                if m and int(m.group(1)) in at:
                    i = at[int(m.group(1))]
                    kind = "result type" if "result type" in m.group(2) else "compile"
                    out.setdefault(i, (kind, m.group(2)))
                elif " error: " in l:
                    raise build.Broken("witness: " + l[-300:])
            live = [i for i in live if out.get(i, ("",))[0] != "compile"]
        else:
            raise build.Broken("witness does not compile: " + p.stderr[:500])
        for i, (kind, msg) in out.items():
            label, par, e, want, args, callee = W[i]
            bad.append({"fn": callee or label, "msg": "%s: %s" % (label, "result is not %s" % want if kind == "result type" else "does not compile: " + short(msg))})
        # binding: the function the witness calls exists in the library, with the documented parameter types
        defined = {f["name"]: f for f in facts(bc)["fn"] if not f["decl"]}
        defined_vars = {g["name"] for g in facts(bc)["gv"] if not g["decl"]}
        wf = facts(obj)
        inline = {f["name"] for f in wf["fn"] if not f["decl"] and not f["name"].startswith("absint_")}
        calls = {}
        dem = {f["name"]: f["dem"] for f in wf["fn"]}
        for c in wf["call"]:
            calls.setdefault(c["fn"], []).append({"callee": c["callee"], "dem": dem.get(c["callee"], "")})
        for r in wf.get("gv", []):
            if r["decl"] and not r["name"].startswith("_ZTV") and "DotnetLibrary" in r.get("dem", "") and r["name"] not in defined_vars:
                bad.append({"fn": short(r["dem"]), "msg": "%s is declared and used, but not defined" % short(r["dem"])})
        for i in live:
            label, par, e, want, args, callee = W[i]
            if not callee:
                continue
            member = callee[callee.index("::"):] + "("      # may be inherited
            cs = [c for c in calls.get("absint_w%d" % i, []) if member in c["dem"] and "~" not in c["dem"]]
            if e.startswith("o->get_As"):      # virtual: bound at run time
                continue
            if not cs:
                bad.append({"fn": callee, "msg": "%s: does not call %s" % (label, callee)})
                continue
            c = cs[-1]
            complete = re.sub(r"C1(?=E)", "C2", c["callee"])       # the complete object constructor may be an alias
            if not {c["callee"], complete} & (set(defined) | inline):
                bad.append({"fn": short(c["dem"]), "msg": "%s: %s is declared, but not defined" % (label, short(c["dem"]))})
            if args is not None:
                got = short(c["dem"])
                got = got[got.index("(") + 1:got.rindex(")")] if "(" in got else ""
                got = [re.sub(r"( const)?&$", "", g.strip()) for g in got.split(",") if g.strip()]
                exp = [PRIM.get(a.rstrip("&").rstrip("*"), a.rstrip("&").rstrip("*")) + ("*" if "*" in a else "") for a in args]
                # an object may be passed as its base class; numbers must not be converted
                if len(got) < len(exp) or any(g != x and not (x.endswith("*") and g == "Object*") for g, x in zip(got, exp)):
                    bad.append({"fn": short(c["dem"]), "msg": "%s: binds to %s" % (label, short(c["dem"]))})
        return {"rule": "interface", "obligations": sum(2 if w[3] else 1 for w in W) + sum(1 for w in W if w[5]), "violations": bad,
                "examples": [{"witness": W[i][0], "expression": W[i][2], "result": W[i][3]} for i in (0, 40, 200, len(W) - 60)], "skipped": skipped}
    finally:
        shutil.rmtree(work, ignore_errors=True)
