# Specification of time spans: integer arithmetic without silent wrap-around.
TPD, TPH, TPM, TPS, TPMS = 864000000000, 36000000000, 600000000, 10000000, 10000
MAX, MIN = 2**63 - 1, -2**63
out = []
def block(sig, cases):
    out.append("fn " + sig); out.extend(cases)
for n, st, mo in (("Hours", TPH, 24), ("Minutes", TPM, 60), ("Seconds", TPS, 60), ("Milliseconds", TPMS, 1000)):
    p = "%d*%%h + %d*%%x + %%r, %%h >= 0, %%x >= 0, %%x < %d, %%r >= 0, %%r < %d, %%h <= %d" % (st * mo, st, mo, st, MAX // (st * mo) + 1)
    block("TimeSpanValue::get_%s()" % n, ["if this.value == %s => returns, ret == %%x" % p, "if this.value == %s => returns, ret == -%%x" % ("-" + p.replace(" + ", " - ", 2))])
for n, st in (("Days", TPD),):
    block("TimeSpanValue::get_%s()" % n, ["if this.value == %d*%%x + %%r, %%x >= 0, %%r >= 0, %%r < %d, %%x <= %d => returns, ret == %%x" % (st, st, MAX // st), "if this.value == -%d*%%x - %%r, %%x >= 0, %%r >= 0, %%r < %d, %%x <= %d => returns, ret == -%%x" % (st, st, MAX // st)])
block("TimeSpanValue::get_Ticks()", ["always => returns, ret == this.value"])
block("TimeSpanValue::get_AsTimeSpan()", ["always => returns, ret.value == this.value"])
for n, st in (("Days", TPD), ("Hours", TPH), ("Minutes", TPM), ("Seconds", TPS), ("Milliseconds", TPMS)):
    block("TimeSpanValue::get_Total%s()" % n, ["always => returns, ret is not nan", "if this.value == 0 => returns, ret == 0.0", "if this.value > 0 => returns, ret > 0.0", "if this.value < 0 => returns, ret < 0.0",
        "if this.value >= %d => ret >= 1.0" % st, "if this.value <= -%d => ret <= -1.0" % st, "if this.value >= 0, this.value <= %d => ret <= 1.0" % st, "if this.value <= 0, this.value >= -%d => ret >= -1.0" % st,
        "if this.value == %d => ret == 7.0" % (7 * st)])
    block("TimeSpanValue::From%s(double)" % n, ["if $1 is nan => throws ArgumentException",
        "if $1 is not nan, $1 > %r => throws OverflowException" % (2.0**63 / st * 1.0000001), "if $1 is not nan, $1 < %r => throws OverflowException" % (-2.0**63 / st * 1.0000001),
        "if $1 is not nan, $1 < %r, $1 > %r => returns" % (2.0**63 / st * .9999999, -2.0**63 / st * .9999999),
        "if $1 is not nan, $1 >= 0.0 => ret.value >= 0", "if $1 is not nan, $1 <= 0.0 => ret.value <= 0",
        "if $1 is not nan, $1 >= 1.0 => ret.value >= %d" % (st - 1), "if $1 is not nan, $1 <= -1.0 => ret.value <= -%d" % (st - 1),
        "if $1 is not nan, $1 >= 0.0, $1 <= 1.0 => returns, ret.value <= %d" % (st + 1), "if $1 is not nan, $1 <= 0.0, $1 >= -1.0 => returns, ret.value >= -%d" % (st + 1),
        "if $1 is not nan, $1 == 3.0 => returns, ret.value == %d" % (3 * st)])
block("TimeSpanValue::FromTicks(long)", ["always => returns, ret.value == $1"])
block("TimeSpan::TimeSpan(long)", ["always => returns, this'.value == $1"])
block("TimeSpan::TimeSpan()", ["always => returns, this'.value == 0"])
block("TimeSpan::TimeSpan(TimeSpan const&)", ["always => returns, this'.value == $1.value"])
def ranged(sig, e, lo, hi, step, exc, res):
    block(sig, ["if %s <= %d, %s >= %d => returns, %s == %s" % (e, hi, e, lo, res, step), "if %s > %d => throws %s" % (e, hi, exc), "if %s < %d => throws %s" % (e, lo, exc)])
e3 = "3600*$1 + 60*$2 + $3"
ranged("TimeSpan::TimeSpan(int, int, int)", e3, -922337203685, 922337203685, "%d*$1 + %d*$2 + %d*$3" % (TPH, TPM, TPS), "ArgumentOutOfRangeException", "this'.value")
e5 = "86400000*$1 + 3600000*$2 + 60000*$3 + 1000*$4 + $5"
ranged("TimeSpan::TimeSpan(int, int, int, int, int)", e5, -922337203685477, 922337203685477, "%d*$1 + %d*$2 + %d*$3 + %d*$4 + %d*$5" % (TPD, TPH, TPM, TPS, TPMS), "ArgumentOutOfRangeException", "this'.value")
def arith(sig, e):
    block(sig, ["if %s <= %d, %s >= %d => returns, ret.value == %s" % (e, MAX, e, MIN, e), "if %s > %d => throws OverflowException" % (e, MAX), "if %s < %d => throws OverflowException" % (e, MIN)])
arith("TimeSpanValue::Add(TimeSpan const&)", "this.value + $1.value")
arith("TimeSpanValue::Subtract(TimeSpan const&)", "this.value - $1.value")
arith("TimeSpanValue::op_Addition(TimeSpan const&, TimeSpan const&)", "$1.value + $2.value")
arith("TimeSpanValue::op_Subtraction(TimeSpan const&, TimeSpan const&)", "$1.value - $2.value")
for sig, v in (("TimeSpanValue::Negate()", "this.value"), ("TimeSpanValue::op_UnaryNegation(TimeSpan const&)", "$1.value")):
    block(sig, ["if %s > %d => returns, ret.value == -%s" % (v, MIN, v), "if %s == %d => throws OverflowException" % (v, MIN)])
block("TimeSpanValue::op_UnaryPlus(TimeSpan const&)", ["always => returns, ret.value == $1.value"])
block("TimeSpanValue::Duration()", ["if this.value >= 0 => returns, ret.value == this.value", "if this.value < 0, this.value > %d => returns, ret.value == -this.value" % MIN, "if this.value == %d => throws OverflowException" % MIN])
CMP = lambda a, b: ["if %s < %s => returns, ret < 0" % (a, b), "if %s == %s => returns, ret == 0" % (a, b), "if %s > %s => returns, ret > 0" % (a, b)]
block("TimeSpanValue::Compare(TimeSpan const&, TimeSpan const&)", CMP("$1.value", "$2.value"))
block("TimeSpanValue::CompareTo(TimeSpan)", CMP("this.value", "$1.value"))
for op, o, neg in (("Equality", "==", "!="), ("Inequality", "!=", "=="), ("GreaterThan", ">", "<="), ("GreaterThanOrEqual", ">=", "<"), ("LessThan", "<", ">="), ("LessThanOrEqual", "<=", ">")):
    block("TimeSpanValue::op_%s(TimeSpan const&, TimeSpan const&)" % op, ["if $1.value %s $2.value => returns, ret == 1" % o, "if $1.value %s $2.value => returns, ret == 0" % neg])
block("TimeSpanValue::Equals(TimeSpan const&)", ["if this.value == $1.value => returns, ret == 1", "if this.value != $1.value => returns, ret == 0"])
block("TimeSpanValue::Equals(TimeSpan const&, TimeSpan const&)", ["if $1.value == $2.value => returns, ret == 1", "if $1.value != $2.value => returns, ret == 0"])
# scaling by a number
for sig, v, f, inv in (("TimeSpanValue::Multiply(double)", "this.value", "$1", 0), ("TimeSpanValue::op_Multiply(TimeSpan const&, double const&)", "$1.value", "$2", 0),
                       ("TimeSpanValue::op_Multiply(double const&, TimeSpan const&)", "$2.value", "$1", 0), ("TimeSpanValue::Divide(double)", "this.value", "$1", 1), ("TimeSpanValue::op_Division(TimeSpan const&, double const&)", "$1.value", "$2", 1)):
    c = ["if %s is nan => throws ArgumentException" % f,
         "if %s > 0, %s > 0.0, %s is not nan => ret.value >= 0" % (v, f, f), "if %s < 0, %s > 0.0, %s is not nan => ret.value <= 0" % (v, f, f),
         "if %s > 0, %s < 0.0, %s is not nan => ret.value <= 0" % (v, f, f), "if %s < 0, %s < 0.0, %s is not nan => ret.value >= 0" % (v, f, f)]
    if inv:
        c += ["if %s != 0, %s == 0.0, %s is not nan => throws OverflowException" % (v, f, f), "if %s == 0, %s == 0.0, %s is not nan => throws OverflowException" % (v, f, f),
              "if %s > 4611686018427387904, %s > 0.0, %s < 0.4, %s is not nan => throws OverflowException" % (v, f, f, f), "if %s == 0, %s != 0.0, %s is not nan => returns, ret.value == 0" % (v, f, f)]
    else:
        c += ["if %s == 0, %s > -1e300, %s < 1e300, %s is not nan => returns, ret.value == 0" % (v, f, f, f), "if %s == 0.0, %s is not nan => returns, ret.value == 0" % (f, f),
              "if %s > 4611686018427387904, %s > 2.1, %s is not nan => throws OverflowException" % (v, f, f), "if %s < -4611686018427387905, %s > 2.1, %s is not nan => throws OverflowException" % (v, f, f), "if %s > 4611686018427387904, %s < -2.1, %s is not nan => throws OverflowException" % (v, f, f)]
    block(sig, c)
for sig, a, b in (("TimeSpanValue::Divide(TimeSpan)", "this.value", "$1.value"), ("TimeSpanValue::op_Division(TimeSpan const&, TimeSpan const&)", "$1.value", "$2.value")):
    block(sig, ["if %s > 0, %s > 0 => returns, ret is not nan, ret > 0.0" % (a, b), "if %s < 0, %s > 0 => returns, ret is not nan, ret < 0.0" % (a, b), "if %s == 0, %s == 0 => returns, ret is nan" % (a, b),
                "if %s == 0, %s != 0 => returns, ret is not nan, ret == 0.0" % (a, b), "if %s > 0, %s == 0 => returns, ret is not nan, ret == 1e999 | ret == -1e999" % (a, b)])
# particular values: the units and their neighbours on both sides of zero, mixtures, and the ends of the range
VALS = [0] + [sg * v for u in (1, TPMS, TPS, TPM, TPH, TPD) for v in (u - 1, u, u + 1, 2 * u) if v for sg in (1, -1)] + [sg * (3 * TPD + 23 * TPH + 59 * TPM + 59 * TPS + 999 * TPMS + 9999) for sg in (1, -1)] + [MAX, MAX - 1, MIN, MIN + 1]
def tdiv(a, b): q = abs(a) // b; return q if a >= 0 else -q
def tmod(a, b): r = abs(a) % b; return r if a >= 0 else -r
for n, st, mo in (("Days", TPD, 2**40), ("Hours", TPH, 24), ("Minutes", TPM, 60), ("Seconds", TPS, 60), ("Milliseconds", TPMS, 1000)):
    block("TimeSpanValue::get_%s() #values" % n, ["if this.value == %d => returns, ret == %d" % (v, tmod(tdiv(v, st), mo)) for v in VALS])
    block("TimeSpanValue::get_Total%s() #values" % n, ["if this.value == %d => returns, ret == %r, ret is not nan" % (v, float(v) / st) for v in VALS if abs(v) < 2**60])
    xs = [x * sg for x in (0.5, 1.0, 1.5, 2.25, 100.0, 0.001, 1e-9, 3600.0) for sg in (1.0, -1.0)]
    block("TimeSpanValue::From%s(double) #values" % n, ["if $1 is not nan, $1 == %r => returns, ret.value >= %d, ret.value <= %d" % (x, int(x * st) - (x * st != int(x * st)), int(x * st) + (x * st != int(x * st))) for x in xs]
        + ["if $1 is not nan, $1 == %r => throws OverflowException" % (sg * 1e30) for sg in (1, -1)] + ["if $1 is not nan, $1 == %s1e999 => throws OverflowException" % sg for sg in ("", "-")])
SC = [(7, 0.5, 4), (5, 0.5, 2), (-5, 0.5, -2), (-7, 0.5, -4), (3, 1.5, 4), (5, 1.5, 8), (TPD, 0.25, TPD // 4), (TPS, -3.0, -3 * TPS), (TPS, 1.0, TPS), (-TPS, -1.0, TPS), (MAX, 1.0, None), (MIN, -1.0, None), (MAX, 2.0, None), (MAX, 0.5, 2**62), (MIN, 0.5, -2**62), (MIN, 1.0, MIN), (1, 1e30, None), (1, "1e999", None), (-1, "1e999", None), (0, "1e999", None), (10, 0.04, 0), (10, 0.06, 1)]
DV = [(7, 2.0, 4), (5, 2.0, 2), (-5, 2.0, -2), (TPD, 4.0, TPD // 4), (TPS, -0.25, -4 * TPS), (TPS, 1.0, TPS), (MAX, 1.0, None), (MAX, 0.5, None), (MAX, 2.0, 2**62), (MIN, 1.0, MIN), (MIN, -1.0, None), (1, "1e999", 0), (10, 30.0, 0), (20, 30.0, 1)]
for tab, sigs in ((SC, (("TimeSpanValue::Multiply(double)", "this.value", "$1"), ("TimeSpanValue::op_Multiply(TimeSpan const&, double const&)", "$1.value", "$2"), ("TimeSpanValue::op_Multiply(double const&, TimeSpan const&)", "$2.value", "$1"))),
                  (DV, (("TimeSpanValue::Divide(double)", "this.value", "$1"), ("TimeSpanValue::op_Division(TimeSpan const&, double const&)", "$1.value", "$2")))):
    for sig, v, f in sigs:
        block(sig + " #values", ["if %s == %d, %s == %s, %s is not nan => %s" % (v, a, f, x, f, "throws OverflowException" if r is None else "returns, ret.value == %d" % r) for a, x, r in tab])
for sig, a, b in (("TimeSpanValue::Divide(TimeSpan)", "this.value", "$1.value"), ("TimeSpanValue::op_Division(TimeSpan const&, TimeSpan const&)", "$1.value", "$2.value")):
    block(sig + " #values", ["if %s == %d, %s == %d => returns, ret == %r, ret is not nan" % (a, x, b, y, x / y) for x, y in ((TPD, TPH), (TPH, TPD), (-TPD, TPH), (TPD, -TPH), (7, 2), (TPS, TPS), (1, 10), (MIN, -1), (MAX, 1))])
print("\n".join(out))
