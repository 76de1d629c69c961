# Math: the functions of the C library behind Math, and rounding to digits.  Where a result is exact it is demanded exactly; elsewhere the value at a few
# arguments that tell the functions (and their arguments) apart, the sign, the range and the arguments without a result.
import math
INF = "1e999"
def lit(x):
    if x == float("inf"): return INF
    if x == float("-inf"): return "-" + INF
    return repr(float(x))
def at(n, x):
    if isinstance(x, int) and not isinstance(x, bool): x = float(x)
    return "$%d == %s, $%d is not nan" % (n, lit(x), n)
def near(v):
    if v == 0: return "ret == 0.0, ret is not nan"
    if math.isinf(v): return "ret == %s, ret is not nan" % lit(v)
    t = abs(v) * 1e-9
    return "ret >= %s, ret <= %s, ret is not nan" % (lit(v - t), lit(v + t))
def exact(v): return "ret == %s, ret is not nan" % lit(v)
out = []
NAN = "ret is nan"
def fn(name, n, cases, tag=""):
    out.append("fn Math::%s(%s)%s" % (name, n if isinstance(n, str) else ",".join(["double"] * n), tag))
    for c, p in cases: out.append("if %s => returns, %s" % (c, p))
def rng(lo, hi, strictlo=False, stricthi=False):
    o = []
    if lo is not None: o.append("$1 %s %s" % (">" if strictlo else ">=", lit(lo)))
    if hi is not None: o.append("$1 %s %s" % ("<" if stricthi else "<=", lit(hi)))
    return ", ".join(o + ["$1 is not nan"])
I = float("inf")
nan1 = [("$1 is nan", NAN)]
zero_odd = [("$1 is negzero", "ret is negzero"), ("$1 is poszero", "ret is poszero")]
pts = lambda f, xs: [(at(1, x), near(f(x))) for x in xs]
fn("Sqrt", 1, nan1 + [(rng(None, 0, stricthi=True), NAN), (at(1, I), exact(I)), (rng(0, None, True), "ret > 0.0, ret is not nan"), (rng(0, 1), "ret >= $1, ret <= 1.0, ret is not nan"), (rng(1, None), "ret <= $1, ret >= 1.0, ret is not nan")]
   + [(at(1, x), exact(math.sqrt(x))) for x in (1, 4, 9, 0.25, 2, 1e300, 5e-324, 1.7976931348623157e308, 4503599761588224.0)])
fn("Sqrt", 1, zero_odd, " #zeros")
def ftable(name, f, xs, extra): fn(name, 1, nan1 + extra + pts(f, xs))
LOGX = (1, 2, 8, 10, 1000, 1e-5, 0.5, 1e300, 5e-324)
for name, f in (("Log", math.log), ("Log10", math.log10), ("Log2", lambda x: -1074.0 if x == 5e-324 else math.log2(x))):
    ftable(name, f, LOGX, [(rng(None, 0, stricthi=True), NAN), (at(1, 0), exact(-I)), (at(1, I), exact(I)), (rng(0, 1, True, True), "ret <= 0.0, ret is not nan"), (rng(1, None, True), "ret >= 0.0, ret is not nan")])
ftable("Exp", math.exp, (0, 1, -1, 2.5, -700, 700), [(at(1, I), exact(I)), (at(1, -I), exact(0.0)), (rng(710, None), exact(I)), (rng(None, -746), "ret >= 0.0, ret <= 1e-320, ret is not nan"), (rng(None, None), "ret >= 0.0, ret is not nan"), (rng(0, None), "ret >= 1.0"), (rng(None, 0), "ret <= 1.0")])
for name, f in (("Sin", math.sin), ("Cos", math.cos)):
    ftable(name, f, (0, 1, -1, 2.5, -2.5, 4, 1000), [(at(1, I), NAN), (at(1, -I), NAN), (rng(-1e300, 1e300), "ret >= -1.0, ret <= 1.0, ret is not nan")])
fn("Sin", 1, zero_odd, " #zeros")
ftable("Tan", math.tan, (0, 1, -1, 2.5, -2.5, 4, 1000), [(at(1, I), NAN), (at(1, -I), NAN)])
fn("Tan", 1, zero_odd, " #zeros")
ftable("Asin", math.asin, (0, 0.5, -0.5, 1, -1), [(rng(1, None, True), NAN), (rng(None, -1, False, True), NAN), (rng(-1, 1), "ret >= -1.5707963268, ret <= 1.5707963268, ret is not nan"), (rng(0, 1), "ret >= 0.0"), (rng(-1, 0), "ret <= 0.0")])
ftable("Acos", math.acos, (0, 0.5, -0.5, 1, -1), [(rng(1, None, True), NAN), (rng(None, -1, False, True), NAN), (rng(-1, 1), "ret >= 0.0, ret <= 3.14159265359, ret is not nan"), (rng(0.5, 1), "ret <= 1.05"), (rng(-1, -0.5), "ret >= 2.09")])
ftable("Atan", math.atan, (0, 0.5, -0.5, 1, -1, 1e10, -1e10), [(at(1, I), near(math.pi / 2)), (at(1, -I), near(-math.pi / 2)), (rng(None, None), "ret >= -1.5707963268, ret <= 1.5707963268, ret is not nan"), (rng(0, None), "ret >= 0.0"), (rng(None, 0), "ret <= 0.0")])
ftable("Sinh", math.sinh, (0, 1, -1, 2.5), [(at(1, I), exact(I)), (at(1, -I), exact(-I)), (rng(0, None), "ret >= 0.0, ret is not nan"), (rng(None, 0), "ret <= 0.0, ret is not nan"), (rng(711, None), exact(I)), (rng(None, -711), exact(-I))])
ftable("Cosh", math.cosh, (0, 1, -1, 2.5, -2.5), [(at(1, I), exact(I)), (at(1, -I), exact(I)), (rng(None, None), "ret >= 1.0, ret is not nan"), (rng(711, None), exact(I)), (rng(None, -711), exact(I))])
ftable("Tanh", math.tanh, (0, 1, -1, 2.5), [(at(1, I), exact(1.0)), (at(1, -I), exact(-1.0)), (rng(None, None), "ret >= -1.0, ret <= 1.0, ret is not nan"), (rng(0, None), "ret >= 0.0"), (rng(None, 0), "ret <= 0.0")])
ftable("Asinh", math.asinh, (0, 1, -1, 2.5, -2.5), [(at(1, I), exact(I)), (at(1, -I), exact(-I)), (rng(0, None), "ret >= 0.0, ret is not nan"), (rng(None, 0), "ret <= 0.0, ret is not nan")])
ftable("Acosh", math.acosh, (1, 1.5, 10, 1e5), [(rng(None, 1, False, True), NAN), (at(1, I), exact(I)), (rng(1, None), "ret >= 0.0, ret is not nan")])
ftable("Atanh", math.atanh, (0, 0.5, -0.5, 0.99), [(rng(None, -1, False, True), NAN), (rng(1, None, True), NAN), (at(1, 1), exact(I)), (at(1, -1), exact(-I)), (rng(0, 1), "ret >= 0.0, ret is not nan"), (rng(-1, 0), "ret <= 0.0, ret is not nan")])
ftable("Cbrt", lambda x: math.copysign(round(abs(x) ** (1 / 3), 12), x), (0, 1, -1, 8, -8, 27, -27, 1000), [(at(1, I), exact(I)), (at(1, -I), exact(-I)), (rng(0, None), "ret >= 0.0, ret is not nan"), (rng(None, 0), "ret <= 0.0, ret is not nan")])
for n in ("Cbrt", "Asin", "Atan", "Sinh", "Tanh", "Asinh", "Atanh"): fn(n, 1, zero_odd, " #zeros")
# two arguments
def two(name, ps, f, extra=[], val=near):
    fn(name, 2, extra + [(at(1, x) + ", " + at(2, y), val(f(x, y))) for x, y in ps])
two("Pow", [(2, 10), (2, -1), (2, 0.5), (9, 0.5), (-2, 3), (-2, 2), (10, 3), (0.5, 2), (10, -3), (7, 11)], lambda x, y: float(x) ** y,
    [("$2 == 0.0, $2 is not nan", exact(1.0)), ("$1 == 1.0, $1 is not nan", exact(1.0)), ("$1 is nan, $2 is not nan, $2 > 0.0", NAN), ("$1 is nan, $2 is not nan, $2 < 0.0", NAN), ("$1 is nan, $2 is nan", NAN),
     ("$2 is nan, $1 is not nan, $1 > 1.0", NAN), ("$2 is nan, $1 is not nan, $1 < 1.0", NAN), (at(2, 1) + ", $1 is not nan", "ret == $1, ret is not nan"),
     ("$1 > 0.0, $1 is not nan, $2 is not nan", "ret >= 0.0, ret is not nan"), (at(2, 2) + ", $1 is not nan", "ret >= 0.0, ret is not nan"), (at(1, -8) + ", " + at(2, 0.5), NAN), (at(1, -1) + ", " + at(2, I), exact(1.0)), (at(1, -1) + ", " + at(2, -I), exact(1.0)),
     (at(1, 2) + ", " + at(2, I), exact(I)), (at(1, 2) + ", " + at(2, -I), exact(0.0)), (at(1, 0.5) + ", " + at(2, I), exact(0.0)), (at(1, 0.5) + ", " + at(2, -I), exact(I)), (at(1, 2) + ", " + at(2, 1024), exact(I)), (at(1, -2) + ", " + at(2, 1025), exact(-I)),
     (at(1, 0) + ", $2 > 0.0, $2 is not nan", exact(0.0)), (at(1, I) + ", $2 > 0.0, $2 is not nan", exact(I)), (at(1, I) + ", $2 < 0.0, $2 is not nan", exact(0.0))])
two("Atan2", [(1, 1), (1, -1), (-1, 1), (-1, -1), (1, 0), (-1, 0), (1, 2), (2, 1), (3, -4)], math.atan2,
    [("$1 is nan", NAN), ("$2 is nan", NAN), ("$1 > 0.0, $1 is not nan, $2 is not nan", "ret >= 0.0, ret <= 3.14159265359, ret is not nan"), ("$1 < 0.0, $1 is not nan, $2 is not nan", "ret <= 0.0, ret >= -3.14159265359, ret is not nan"),
     ("$2 > 0.0, $1 is not nan, $2 is not nan", "ret >= -1.5707963268, ret <= 1.5707963268, ret is not nan"), (at(1, I) + ", " + at(2, I), near(math.pi / 4)), (at(1, 1) + ", " + at(2, I), exact(0.0)), (at(1, 1) + ", " + at(2, -I), near(math.pi))])
fn("Atan2", 2, [("$1 is poszero, $2 is poszero", "ret is poszero"), ("$1 is negzero, $2 is poszero", "ret is negzero"), ("$1 is poszero, $2 is negzero", near(math.pi)), ("$1 is negzero, $2 is negzero", near(-math.pi))], " #zeros")
two("IEEERemainder", [(3, 2), (4, 2), (10, 3), (11, 3), (27, 4), (28, 5), (17.8, 4), (17.8, 4.1), (-16.3, 4.1), (17.8, -4.1), (-17.8, -4.1), (5, 2), (7, 2), (1, 2), (1e300, 7)], math.remainder,
    [("$1 is nan", NAN), ("$2 is nan", NAN), (at(2, 0) + ", $1 is not nan", NAN), (at(1, I) + ", $2 is not nan", NAN), (at(1, -I) + ", $2 is not nan", NAN), (at(2, I) + ", $1 is not nan, $1 > -1e300, $1 < 1e300", "ret == $1, ret is not nan"), (at(2, -I) + ", $1 is not nan, $1 > -1e300, $1 < 1e300", "ret == $1, ret is not nan"),
     (at(2, 1) + ", $1 is not nan, $1 > -1e300, $1 < 1e300", "ret >= -0.5, ret <= 0.5, ret is not nan")], exact)
fn("IEEERemainder", 2, [("$1 is negzero, " + at(2, 3), "ret is negzero"), ("$1 is poszero, " + at(2, 3), "ret is poszero"), (at(1, -4) + ", " + at(2, 2), "ret is negzero"), (at(1, 4) + ", " + at(2, 2), "ret is poszero")], " #zeros")
def logb(x, b): return math.log(x) / math.log(b)
two("Log", [(8, 2), (100, 10), (2, 8), (27, 3), (0.5, 2), (8, 0.5), (1, 5), (10, 4)], logb,
    [("$1 is nan", NAN), ("$2 is nan", NAN), ("$2 == 1.0, $2 is not nan", NAN), (at(1, 1) + ", " + at(2, 0), exact(0.0)), (at(1, 1) + ", " + at(2, I), exact(0.0)), (at(2, 0) + ", $1 > 1.0, $1 is not nan", NAN), (at(2, 0) + ", $1 < 1.0, $1 is not nan", NAN),
     (at(2, I) + ", $1 > 1.0, $1 is not nan", NAN), (at(2, I) + ", $1 < 1.0, $1 is not nan", NAN), (at(1, 0) + ", " + at(2, 2), exact(-I)), (at(1, I) + ", " + at(2, 2), exact(I)), (at(1, 0) + ", " + at(2, 0.5), exact(I)), ("$1 < 0.0, $1 is not nan, " + at(2, 2), NAN), (at(1, 2) + ", $2 < 0.0, $2 is not nan", NAN)])
out.append("fn Math::FusedMultiplyAdd(double,double,double)")
for i in (1, 2, 3): out.append("if $%d is nan => returns, ret is nan" % i)
E52 = 2.0 ** -52
for x, y, z, v in ((2, 3, 4, 10), (-2, 3, 4, -2), (2, -3, 4, -2), (2, 3, -4, 2), (1 + E52, 1 - E52, -1, -E52 * E52), (1e200, 1e200, -I, -I), (1e200, 1e200, 0, I), (0.5, 8, 1, 5)):
    out.append("if %s => returns, %s" % (", ".join(at(i + 1, q) for i, q in enumerate((x, y, z))), exact(v)))
out.append("if %s, %s, %s => returns, ret is nan" % (at(1, 0), at(2, I), at(3, 1)))
out.append("if %s, %s, %s => returns, ret is nan" % (at(1, 2), at(2, I), at(3, -I)))
out.append("fn Math::ScaleB(double,int)")
out.append("if $1 is nan => returns, ret is nan")
out += ["if %s => returns, ret == %s, ret is not nan" % (at(1, x), lit(x)) for x in (I, -I, 0)]
out.append("if $2 == 0, $1 is not nan => returns, ret == $1, ret is not nan")
out.append("if $1 > 0.0, $1 is not nan => returns, ret >= 0.0, ret is not nan")
out.append("if $1 < 0.0, $1 is not nan => returns, ret <= 0.0, ret is not nan")
for x, n, v in ((1, 10, 1024), (3, 4, 48), (-3, -1, -1.5), (1, 1023, 2.0 ** 1023), (1, 1024, I), (-1, 2000, -I), (1, -1074, 5e-324), (1, -1075, 0), (1, -2000, 0), (5e-324, 1074, 1), (1, 2147483647, I), (1, -2147483648, 0), (5e-324, 2098, I), (5e-324, 2097, 2.0 ** 1023)):
    out.append("if %s, $2 == %d => returns, %s" % (at(1, x), n, exact(v)))
out += ["fn Math::ScaleB(double,int) #zeros", "if $1 is negzero => returns, ret is negzero", "if $1 is poszero => returns, ret is poszero", "if %s, $2 == -2000 => returns, ret is negzero" % at(1, -1)]
out.append("fn Math::ILogB(double) #values")
for x in (1, 2, 3, 4, 0.5, 0.75, -8, 1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 2.2250738585072009e-308):
    out.append("if %s => returns, ret == %d" % (at(1, x), math.frexp(x)[1] - 1))
out += ["if %s => returns, ret == 2147483647" % at(1, x) for x in (I, -I)]
out.append("if %s => returns, ret >= 0" % rng(1, None)); out.append("if $1 > 0.0, $1 < 1.0, $1 is not nan => returns, ret < 0")
# rounding
def half_even(x): return float(round(x))
RX = (0.5, 1.5, 2.5, 3.5, -0.5, -1.5, -2.5, 0.49999999999999994, -0.49999999999999994, 0.50000000000000011, 1.4999999999999998, 2.0000000000000004, 4503599627370495.5, 4503599627370494.5, 2251799813685248.5, -4503599627370495.5, 1e15 + 0.5, 9007199254740991.0, 4503599627370497.0, 1e300, 7, -7, 2147483647.5, 4294967296.5, 0.3, -0.3, 1e-300)
out.append("fn Math::Round(double) #values")
for x in RX: out.append("if %s => returns, %s" % (at(1, x), exact(half_even(x))))
out += ["if %s => returns, ret == %s, ret is not nan" % (at(1, x), lit(x)) for x in (I, -I)]
for n, f in (("Floor", math.floor), ("Ceiling", math.ceil), ("Truncate", math.trunc)):
    out.append("fn Math::%s(double) #values" % n)
    for x in RX: out.append("if %s => returns, %s" % (at(1, x), exact(float(f(x)))))
    out += ["if %s => returns, ret == %s, ret is not nan" % (at(1, x), lit(x)) for x in (I, -I)]
    out.append("if $1 is not nan => returns, ret %s $1, ret is not nan" % ("<=" if n == "Floor" else ">=") if n != "Truncate" else "if $1 is not nan, $1 >= 0.0 => returns, ret <= $1, ret >= 0.0, ret is not nan")
def away(x): return math.copysign(math.floor(abs(x) + 0.5) if abs(x) != 0.49999999999999994 else 0.0, x)
M = ((0, half_even), (1, away), (2, lambda x: float(math.trunc(x))), (3, lambda x: float(math.floor(x))), (4, lambda x: float(math.ceil(x))))
out.append("fn Math::Round(double,int,MidpointRounding) #values")
for m, f in M:
    for x in (0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 2.4, -2.4, 2.6, -2.6, 0.49999999999999994, 7, -7, 4503599627370495.5):
        out.append("if %s, $2 == 0, $3 == %d => returns, %s" % (at(1, x), m, exact(f(x))))
    for x, d in ((2.125, 2), (-2.125, 2), (2.375, 2), (1.25, 1), (-1.25, 1), (1.5, 1), (1234.5678, 2), (-1234.5678, 3), (1.0, 15), (3.0, 9)):
        p = 10.0 ** d
        out.append("if %s, $2 == %d, $3 == %d => returns, %s" % (at(1, x), d, m, exact(f(x * p) / p)))
    out.append("if $1 is not nan, $1 <= -1e16, $2 >= 0, $2 <= 15, $3 == %d => returns, ret == $1, ret is not nan" % m)
out.append("fn Math::Round(double,int) #values")
for x, d in ((2.125, 2), (-2.125, 2), (2.375, 2), (1.25, 1), (0.5, 0), (1.5, 0), (2.5, 0), (1234.5678, 2), (1.0, 15)):
    p = 10.0 ** d
    out.append("if %s, $2 == %d => returns, %s" % (at(1, x), d, exact(half_even(x * p) / p)))
out += ["if $1 is nan, $2 >= 0, $2 <= 15 => returns, ret is nan", "if %s, $2 >= 0, $2 <= 15 => returns, ret == 1e999, ret is not nan" % at(1, I), "if %s, $2 >= 0, $2 <= 15 => returns, ret == -1e999, ret is not nan" % at(1, -I)]
out.append("fn Math::Exp(double) #zeros"); out.append("if $1 is negzero => returns, ret == 1.0, ret is not nan")
# between neighbouring points of a grid over the whole domain, the result lies between the values at the points (monotone pieces)
def envelope(name, f, grid, falling=False):
    out.append("fn Math::%s(double) #grid" % name)
    for a, b in zip(grid, grid[1:]):
        u, v = f(a), f(b)
        if u > v: u, v = v, u
        u, v = u - abs(u) * 1e-9 - 1e-320, v + abs(v) * 1e-9 + 1e-320
        out.append("if $1 >= %s, $1 <= %s, $1 is not nan => returns, ret >= %s, ret <= %s, ret is not nan" % (lit(a), lit(b), lit(u), lit(v)))
def safe(f, over):
    def g(x):
        try: return f(x)
        except OverflowError: return over(x)
    return g
sym = lambda xs: sorted({-x for x in xs} | set(xs))
POW = [0.0, 5e-324, 1e-300, 1e-100, 1e-20, 1e-6, 0.01, 0.1, 0.25, 0.5, 0.9, 1.0, 1.1, 1.5, 2.0, 3.0, 5.0, 8.0, 10.0, 16.0, 20.0, 21.0, 25.0, 50.0, 100.0, 1000.0, 1e5, 1e6, 1e9, 1e15, 1e16, 1e20, 1e50, 1e100, 1e200, 1e300, 1.7976931348623157e308]
envelope("Sqrt", math.sqrt, POW)
for n, f in (("Log", math.log), ("Log10", math.log10), ("Log2", lambda x: math.log(x) / math.log(2))): envelope(n, f, POW[1:])
EXPG = [-745.0, -708.0, -700.0, -500.0, -100.0, -50.0, -20.0, -10.0, -5.0, -2.0, -1.0, -0.5, -0.1, -1e-6, 0.0, 1e-6, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 20.0, 25.0, 50.0, 100.0, 500.0, 700.0, 709.0]
envelope("Exp", math.exp, EXPG[1:])
SG = sym([0.0, 1e-300, 1e-20, 1e-9, 1e-6, 0.001, 0.1, 0.5, 1.0, 2.0, 5.0, 10.0, 15.0, 19.0, 20.0, 21.0, 22.0, 23.0, 25.0, 30.0, 40.0, 50.0, 100.0, 300.0, 500.0, 700.0, 709.0, 710.0])
envelope("Sinh", math.sinh, SG); envelope("Cosh", math.cosh, SG); envelope("Tanh", math.tanh, SG); envelope("Asinh", math.asinh, sym(POW)); envelope("Atan", math.atan, sym(POW))
envelope("Cbrt", lambda x: math.copysign(abs(x) ** (1 / 3) if x else 0.0, x), sym(POW))
UG = sym([0.0, 1e-300, 1e-20, 1e-9, 1e-4, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.999999, 1.0])
envelope("Asin", math.asin, UG); envelope("Acos", math.acos, UG); envelope("Atanh", math.atanh, UG[1:-1])
envelope("Acosh", math.acosh, [1.0, 1.0000001, 1.001, 1.1, 1.5, 2.0, 5.0, 20.0, 1000.0, 1e6, 1e9, 1e20, 1e100, 1e154, 1e155, 1e300])
TG = [k * math.pi / 8 for k in range(-24, 25)]
for n, f in (("Sin", math.sin), ("Cos", math.cos), ("Tan", math.tan)):
    out.append("fn Math::%s(double) #grid" % n)
    for a, b in zip(TG, TG[1:]):
        k = round(a / (math.pi / 8))
        if n == "Tan" and (k % 8 in (3, 4)): continue
        u, v = sorted((f(a), f(b)))
        if n != "Tan": u, v = max(u, -1.0), min(v, 1.0)
        out.append("if $1 >= %s, $1 <= %s, $1 is not nan => returns, ret >= %s, ret <= %s, ret is not nan" % (lit(a), lit(b), lit(u - 1e-6), lit(v + 1e-6)))
# whole results are exact
def whole(name, cases): out.append("fn Math::%s #whole" % name); out.extend("if %s => returns, %s" % (c, exact(v)) for c, v in cases)
whole("Log10(double)", [(at(1, 10.0 ** k), k) for k in range(0, 23)])
whole("Log2(double)", [(at(1, 2.0 ** k), k) for k in (*range(0, 64), -1, -2, -10, -1022, 1023)])
whole("Sqrt(double)", [(at(1, k * k), k) for k in (*range(0, 20), 1000, 65536, 94906265)])
whole("Pow(double,double)", [(at(1, b) + ", " + at(2, e), float(b) ** e) for b in (2, 3, -2, -3, 10, 7, 0.5) for e in range(-3 if b in (2, 0.5) else 0, 12)] + [(at(1, 2) + ", " + at(2, k), 2.0 ** k) for k in (31, 32, 52, 53, 62, 63, 64, 1023, -1022, -1074)] + [(at(1, 10) + ", " + at(2, k), 10.0 ** k) for k in (15, 16, 20, 22)])
whole("Log(double,double)", [(at(1, 8) + ", " + at(2, 2), 3.0), (at(1, 9) + ", " + at(2, 3), 2.0), (at(1, 100) + ", " + at(2, 10), 2.0), (at(1, 1) + ", " + at(2, 7), 0.0), (at(1, 5) + ", " + at(2, 5), 1.0), (at(1, 16) + ", " + at(2, 2), 4.0), (at(1, 1024) + ", " + at(2, 2), 10.0)])
print("\n".join(out))
