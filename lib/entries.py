"""Which functions are analysed as entry points: the .NET surface the translator admits (ValidTypes.xml),
plus constructors, destructors and the glue the generated program calls."""
import json, os, re, subprocess
from build import Broken, REPO, tool


def functions(bc):
    p = subprocess.run([tool(), bc, "--list"], capture_output=True, text=True)
    if p.returncode:
        raise Broken("cannot read the module: " + p.stderr[-800:])
    return [json.loads(l) for l in p.stdout.splitlines()]


def valid_items(repo=None):
    """(class, member) pairs admitted by the translator"""
    t = open(os.path.join(repo or REPO, "CppTranslator/ValidTypes.xml"), encoding="utf-8-sig").read()
    res, types = set(), set()
    for m in re.finditer(r"<Valid>\s*([^<]*?)\s*</Valid>", t):
        s = m.group(1)
        if "(" in s:
            head = s[:s.index("(")]
            cls, name = head.rsplit(".", 1)
            res.add((cls.rsplit(".", 1)[-1].replace("[]", ""), name))
        else:
            types.add(s)
    if len(res) < 100:
        raise Broken("ValidTypes.xml lists only %d members" % len(res))
    return res, types


def base_class(cls):
    return cls[:-5] if cls.endswith("Value") else cls


SKIP_CLASSES = {"ValueType"}
GLUE = {("TranslatorSupport", "Send"), ("TranslatorSupport", "Run"), ("DataAccess", "get_ArrayData"), ("DataAccess", "get_DoubleData")}
# public members that ValidTypes.xml leaves out: their contract is .NET's, or the translator writes calls of them by itself
EXTRA = {("StringBuilder", "Remove"), ("StringBuilder", "Address"), ("String", "Address"), ("Array", "Address"), ("Array", "GetElementType"), ("Array", "EnsureSingleDimension"),
         ("BitConverter", "DoubleToInt64Bits"), ("BitConverter", "Int64BitsToDouble"), ("Math", "Divide"), ("DoubleValue", "Modulus"), ("SingleValue", "Modulus"),
         ("Exception", "get_Message"), ("Object", "IsPrimitiveType")}
CONVERSIONS = re.compile(r"^get_As")


def select(fns, valid):
    """entry functions; each carries 'api' = why it is one"""
    out, seen = [], set()
    for e in fns:
        c, n, f = e["cls"], e["name"], e["fn"]
        if not e["public"] or f.startswith("_ZTh") or f.startswith("_ZTv") or c in SKIP_CLASSES or not c:
            continue
        if re.search(r"[CD][013]E", f):          # complete-object duplicates; C2/D2 carry the code
            continue
        api = None
        if (base_class(c), n) in valid or (c, n) in valid:
            api = "valid"
        elif any((b, n) in valid for b in ("Object",)) and n in ("ToString", "Equals", "CompareTo"):
            api = "valid"
        elif (c, n) in EXTRA:
            api = "extra"
        elif (c, n) in GLUE:
            api = "glue"
        elif e["ctor"]:
            api = "constructor"
        elif n == "~" + c:
            api = "destructor"
        elif CONVERSIONS.match(n) or n == "GetRawDataType":
            api = "conversion"
        elif n == "FormatString":
            api = "format"
        if api:
            if e["sig"] in seen:
                continue
            seen.add(e["sig"])
            e["api"] = api
            out.append(e)
    return out
