# Specification of dates and times for the whole calendar 0001-9999: the years of a 400-year cycle one by one,
# the cycle, the day and the time of day symbolic.
import sys
TPD, TPH, TPM, TPS, TPMS = 864000000000, 36000000000, 600000000, 10000000, 10000
MAXT = 3652059 * TPD - 1
out = []
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def dim(y, m): return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
Y = []      # (year of cycle 1..400, first day, days per month start)
d = 0
for y in range(1, 401):
    ms = []
    for m in range(1, 13):
        ms.append(d); d += dim(y, m)
    Y.append((y, ms))
assert d == 146097
START = {y: ms for y, ms in Y}
def block(sig, cases, chunk=150):
    for i in range(0, len(cases), chunk):
        out.append("fn %s%s" % (sig, " #%d" % (i // chunk) if len(cases) > chunk else ""))
        out.extend(cases[i:i + chunk])
def last(y): return 23 if y == 400 else 24      # year 10000 does not exist
def at(lo, hi):
    return "this.value == %d*%%a + %d*%%d + %%t, %%a >= 0, %%a <= 24, %%d >= %d, %%d <= %d, %%t >= 0, %%t <= %d" % (146097 * TPD, TPD, lo, hi, TPD - 1)
years = range(1, 401)
def ends(y): return START[y][0], START[y][11] + 30
block("DateTimeValue::get_Year()", ["if %s => returns, ret == 400*%%a + %d" % (at(*ends(y)), y) for y in years])
block("DateTimeValue::get_DayOfYear()", ["if %s => returns, ret == %%d - %d" % (at(*ends(y)), ends(y)[0] - 1) for y in years])
mon = [(y, m) for y in years for m in range(1, 13)]
block("DateTimeValue::get_Month()", ["if %s => returns, ret == %d" % (at(START[y][m - 1], START[y][m - 1] + dim(y, m) - 1), m) for y, m in mon])
block("DateTimeValue::get_Day()", ["if %s => returns, ret == %%d - %d" % (at(START[y][m - 1], START[y][m - 1] + dim(y, m) - 1), START[y][m - 1] - 1) for y, m in mon])
block("DateTimeValue::DaysInMonth(int, int)",
      ["if $1 == 400*%%a + %d, %%a >= 0, %%a <= %d, $2 == %d => returns, ret == %d" % (y, last(y), m, dim(y, m)) for y, m in mon], 600)
block("DateTimeValue::DaysInMonth(int, int) #throws", ["if %s => throws ArgumentOutOfRangeException" % c for c in ("$1 < 1", "$1 > 9999", "$2 < 1", "$2 > 12")])
block("DateTimeValue::IsLeapYear(int)", ["if $1 == 400*%%a + %d, %%a >= 0, %%a <= %d => returns, ret == %d" % (y, last(y), leap(y)) for y in years])
block("DateTimeValue::IsLeapYear(int) #throws", ["if %s => throws ArgumentOutOfRangeException" % c for c in ("$1 < 1", "$1 > 9999")])
V = "this.value >= 0, this.value <= %d" % MAXT
def parts(step, mod): return "this.value == %d*%%h + %d*%%x + %%r, %%h >= 0, %%x >= 0, %%x < %d, %%r >= 0, %%r < %d, %s => returns, ret == %%x" % (step * mod, step, mod, step, V)
for n, st, mo in (("Hour", TPH, 24), ("Minute", TPM, 60), ("Second", TPS, 60), ("Millisecond", TPMS, 1000)):
    block("DateTimeValue::get_%s()" % n, ["if " + parts(st, mo)])
block("DateTimeValue::get_DayOfWeek()", ["if this.value == %d*%%w + %d + %%t, %%w >= 0, %%t >= 0, %%t < %d, %s => returns, ret == %d" % (7 * TPD, k * TPD, TPD, V, (k + 1) % 7) for k in range(7)])
DT = "this.value == %d*%%d + %%t, %%d >= 0, %%t >= 0, %%t < %d, %s" % (TPD, TPD, V)
block("DateTimeValue::get_Date()", ["if %s => returns, ret.value == %d*%%d" % (DT, TPD)])
block("DateTimeValue::get_TimeOfDay()", ["if %s => returns, ret.value == %%t" % DT])
TIME = "$4 >= 0, $4 <= 23, $5 >= 0, $5 <= 59, $6 >= 0, $6 <= 59, $7 >= 0, $7 <= 999"
TICKS = "%d*$4 + %d*$5 + %d*$6 + %d*$7" % (TPH, TPM, TPS, TPMS)
C = "DateTime::DateTime(int, int, int, int, int, int, int)"
block(C, ["if $1 == 400*%%a + %d, %%a >= 0, %%a <= %d, $2 == %d, $3 >= 1, $3 <= %d, %s => returns, this'.value == %d*%%a + %d*$3 + %d + %s" % (y, last(y), m, dim(y, m), TIME, 146097 * TPD, TPD, (START[y][m - 1] - 1) * TPD, TICKS) for y, m in mon])
block(C + " #days", ["if $1 == 400*%%a + %d, %%a >= 0, %%a <= %d, $2 == %d, $3 > %d => throws ArgumentOutOfRangeException" % (y, last(y), m, dim(y, m)) for y, m in mon])
block(C + " #throws", ["if %s => throws ArgumentOutOfRangeException" % c for c in ("$1 < 1", "$1 > 9999", "$2 < 1", "$2 > 12", "$3 < 1", "$4 < 0", "$4 > 23", "$5 < 0", "$5 > 59", "$6 < 0", "$6 > 59", "$7 < 0", "$7 > 999")])
sel = [y for y in range(1, 401) if y % 100 in (0, 1, 99, 4) or y in (2, 3, 5, 8)]
am = []
for y in sel:
    for m in range(1, 13):
        for r in (-13, -12, -11, -1, 0, 1, 2, 11, 12, 25):
            i = (y - 1) * 12 + m - 1 + r
            z, i2 = divmod(i, 4800)
            y2, m2 = i2 // 12 + 1, i2 % 12 + 1
            lim = dim(y2, m2)
            base = "this.value == %d*%%a + %d*%%d + %%t, %%a >= 0, %%a <= 24, %%t >= 0, %%t <= %d, $1 == 4800*%%z + %d" % (146097 * TPD, TPD, TPD - 1, r)
            s0 = START[y][m - 1]; n0 = dim(y, m)
            if lim < n0:
                am.append("if %s, %%d >= %d, %%d <= %d, %%a + %%z + %d >= 0, %%a + %%z + %d <= %d => returns, ret.value == %d*%%a + %d*%%z + %d + %%t" % (base, s0 + lim, s0 + n0 - 1, z, z, last(y2), 146097 * TPD, 146097 * TPD, z * 146097 * TPD + (START[y2][m2 - 1] + lim - 1) * TPD))
            am.append("if %s, %%d >= %d, %%d <= %d, %%a + %%z + %d >= 0, %%a + %%z + %d <= %d => returns, ret.value == %d*%%a + %d*%%z + %d*%%d + %d + %%t" % (base, s0, s0 + min(lim, n0) - 1, z, z, last(y2), 146097 * TPD, 146097 * TPD, TPD, z * 146097 * TPD + (START[y2][m2 - 1] - s0) * TPD))
block("DateTimeValue::AddMonths(int)", am, 100)
Yv = "this.value == %d*%%a + %d*%%d + %%t, %%a >= 0, %%a <= 24, %%t >= 0, %%t <= %d" % (146097 * TPD, TPD, TPD - 1)
at0 = lambda y: Yv + ", %%d >= %d, %%d <= %d" % (START[y][0], START[y][11] + 30)
block("DateTimeValue::AddMonths(int) #throws",
      ["if $1 < -120000 => throws ArgumentOutOfRangeException", "if $1 > 120000 => throws ArgumentOutOfRangeException"] +
      ["if %s, $1 > %d - 4800*%%a => throws ArgumentOutOfRangeException" % (at0(y), (9999 - y) * 12 + 11) for y in sel] +
      ["if %s, $1 < -4800*%%a - %d => throws ArgumentOutOfRangeException" % (at0(y), (y - 1) * 12 + 11) for y in sel])
ay = []
for y in sel:
    for r in (-4, -1, 0, 1, 4, 7):
        z, y2 = divmod(y - 1 + r, 400); y2 += 1
        base = "this.value == %d*%%a + %d*%%d + %%t, %%a >= 0, %%a <= 24, %%t >= 0, %%t <= %d, $1 == 400*%%z + %d" % (146097 * TPD, TPD, TPD - 1, r)
        for m in (1, 2, 3, 12):
            s0 = START[y][m - 1]; n = min(dim(y, m), dim(y2, m))
            ay.append("if %s, %%d >= %d, %%d <= %d, %%a + %%z + %d >= 0, %%a + %%z + %d <= %d => returns, ret.value == %d*%%a + %d*%%z + %d*%%d + %d + %%t" % (base, s0, s0 + n - 1, z, z, last(y2), 146097 * TPD, 146097 * TPD, TPD, z * 146097 * TPD + (START[y2][m - 1] - s0) * TPD))
block("DateTimeValue::AddYears(int)", ay, 100)
block("DateTimeValue::AddYears(int) #throws", ["if $1 < -9999 => throws ArgumentOutOfRangeException", "if $1 > 9999 => throws ArgumentOutOfRangeException"])
def addlike(sig, pre, dv, sgn, retf="ret.value", exc="ArgumentOutOfRangeException"):
    e = "%s %s %s" % (pre, sgn, dv)
    block(sig, ["if %s >= 0, %s <= %d => returns, %s == %s" % (e, e, MAXT, retf, e), "if %s < 0 => throws %s" % (e, exc), "if %s > %d => throws %s" % (e, MAXT, exc)])
addlike("DateTimeValue::AddTicks(long)", "this.value", "$1", "+")
addlike("DateTimeValue::Add(TimeSpan)", "this.value", "$1.value", "+")
addlike("DateTimeValue::Subtract(TimeSpan)", "this.value", "$1.value", "-")
addlike("DateTimeValue::op_Addition(DateTime const&, TimeSpan)", "$1.value", "$2.value", "+")
addlike("DateTimeValue::op_Subtraction(DateTime const&, TimeSpan)", "$1.value", "$2.value", "-")
block("DateTimeValue::Subtract(DateTime const&)", ["always => returns, ret.value == this.value - $1.value"])
block("DateTimeValue::op_Subtraction(DateTime const&, DateTime const&)", ["always => returns, ret.value == $1.value - $2.value"])
block("DateTime::DateTime(unsigned long)", ["if $1 <= %d => returns, this'.value == $1" % MAXT, "if $1 > %d => throws ArgumentOutOfRangeException" % MAXT])
block("DateTime::DateTime()", ["always => returns, this'.value == 0"])
block("DateTimeValue::get_AsDateTime()", ["always => returns, ret.value == this.value"])
CMP = lambda a, b: ["if %s < %s => returns, ret < 0" % (a, b), "if %s == %s => returns, ret == 0" % (a, b), "if %s > %s => returns, ret > 0" % (a, b)]
def rel(op):
    return {"Equality": "==", "Inequality": "!=", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "LessThan": "<", "LessThanOrEqual": "<="}[op]
for cls, ty in (("DateTimeValue", "DateTime"),):
    block("%s::Compare(%s const&, %s const&)" % (cls, ty, ty), CMP("$1.value", "$2.value"))
    for op in ("Equality", "Inequality", "GreaterThan", "GreaterThanOrEqual", "LessThan", "LessThanOrEqual"):
        o = rel(op); neg = {"==": "!=", "!=": "==", ">": "<=", ">=": "<", "<": ">=", "<=": ">"}[o]
        block("%s::op_%s(%s const&, %s const&)" % (cls, op, ty, ty), ["if $1.value %s $2.value => returns, ret == 1" % o, "if $1.value %s $2.value => returns, ret == 0" % neg])
    block("%s::Equals(%s const&)" % (cls, ty), ["if this.value == $1.value => returns, ret == 1", "if this.value != $1.value => returns, ret == 0"])
    block("%s::Equals(%s const&, %s const&)" % (cls, ty, ty), ["if $1.value == $2.value => returns, ret == 1", "if $1.value != $2.value => returns, ret == 0"])
block("DateTimeValue::CompareTo(DateTime const&)", CMP("this.value", "$1.value"))
# fractional amounts: rounded to the nearest millisecond, refused when out of range
for n, s in (("Days", 86400000), ("Hours", 3600000), ("Minutes", 60000), ("Seconds", 1000), ("Milliseconds", 1)):
    block("DateTimeValue::Add%s(double)" % n, ["if $1 is nan => throws ArgumentOutOfRangeException", "if $1 is not nan, $1 > %r => throws ArgumentOutOfRangeException" % (315537897600000.0 / s * 1.0000001), "if $1 is not nan, $1 < %r => throws ArgumentOutOfRangeException" % (-315537897600000.0 / s * 1.0000001),
        "if $1 is not nan, $1 == 0.0 => returns, ret.value == this.value",
        "if $1 is not nan, $1 == 1.0, this.value + %d <= %d => returns, ret.value == this.value + %d" % (s * TPMS, MAXT, s * TPMS),
        "if $1 is not nan, $1 == 1.0, this.value + %d > %d => throws ArgumentOutOfRangeException" % (s * TPMS, MAXT),
        "if $1 is not nan, $1 == -1.0, this.value >= %d => returns, ret.value == this.value - %d" % (s * TPMS, s * TPMS),
        "if $1 is not nan, $1 == -1.0, this.value < %d => throws ArgumentOutOfRangeException" % (s * TPMS)])
    block("DateTimeValue::Add%s(double) #sign" % n, ["if $1 >= 0.0, $1 is not nan => ret.value >= this.value", "if $1 <= 0.0, $1 is not nan => ret.value <= this.value"])
# particular instants: the ends of the calendar, of years and centuries, leap days, and the ends of a day
def split_day(n):
    a, n = divmod(n, 146097)
    for y in years:
        if START[y][0] <= n <= START[y][11] + 30:
            for m in range(1, 13):
                if START[y][m - 1] <= n < START[y][m - 1] + dim(y, m): return 400 * a + y, m, n - START[y][m - 1] + 1, n - START[y][0] + 1
def day_number(y, m, d): a, y0 = divmod(y - 1, 400); return 146097 * a + START[y0 + 1][m - 1] + d - 1
DAYS = [day_number(*x) for x in ((1, 1, 1), (1, 1, 2), (1, 12, 31), (4, 2, 29), (4, 12, 31), (100, 2, 28), (100, 3, 1), (400, 2, 29), (400, 12, 31), (401, 1, 1), (1600, 12, 31), (1899, 12, 31), (1900, 2, 28), (1900, 3, 1), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29),
        (2000, 12, 31), (2001, 1, 1), (2004, 2, 29), (2023, 5, 15), (2100, 2, 28), (2100, 12, 31), (9996, 2, 29), (9999, 1, 1), (9999, 11, 30), (9999, 12, 30), (9999, 12, 31))]
INSTANTS = [n * TPD + t for n in DAYS for t in (0, TPD - 1)] + [DAYS[19] * TPD + t for t in (1, TPMS - 1, TPMS, TPS - 1, TPS, TPM - 1, TPM, TPH - 1, TPH, 12 * TPH, 13 * TPH + 59 * TPM + 59 * TPS + 999 * TPMS + 9999, 23 * TPH + 59 * TPM)] + [MAXT - 1]
for n, f in (("get_Year", lambda v: "ret == %d" % split_day(v // TPD)[0]), ("get_Month", lambda v: "ret == %d" % split_day(v // TPD)[1]), ("get_Day", lambda v: "ret == %d" % split_day(v // TPD)[2]), ("get_DayOfYear", lambda v: "ret == %d" % split_day(v // TPD)[3]),
        ("get_DayOfWeek", lambda v: "ret == %d" % ((v // TPD + 1) % 7)), ("get_Hour", lambda v: "ret == %d" % (v // TPH % 24)), ("get_Minute", lambda v: "ret == %d" % (v // TPM % 60)), ("get_Second", lambda v: "ret == %d" % (v // TPS % 60)),
        ("get_Millisecond", lambda v: "ret == %d" % (v // TPMS % 1000)), ("get_Date", lambda v: "ret.value == %d" % (v // TPD * TPD)), ("get_TimeOfDay", lambda v: "ret.value == %d" % (v % TPD)), ("get_Ticks", None)):
    if f: block("DateTimeValue::%s() #instants" % n, ["if this.value == %d => returns, %s" % (v, f(v)) for v in INSTANTS])
av, yv = [], []
for v in INSTANTS:
    y, m, d, _ = split_day(v // TPD)
    for k in (-1, 1, 12, -12, 24, -2400, 119987, -119987):
        i = y * 12 + m - 1 + k; y2, m2 = i // 12, i % 12 + 1
        ok = 1 <= y2 <= 9999
        av.append("if this.value == %d, $1 == %d => %s" % (v, k, "returns, ret.value == %d" % (day_number(y2, m2, min(d, dim((y2 - 1) % 400 + 1, m2))) * TPD + v % TPD) if ok else "throws ArgumentOutOfRangeException"))
    for k in (-1, 1, 4, -4, 100, 9998, -9998):
        y2 = y + k
        yv.append("if this.value == %d, $1 == %d => %s" % (v, k, "returns, ret.value == %d" % (day_number(y2, m, min(d, dim((y2 - 1) % 400 + 1, m))) * TPD + v % TPD) if 1 <= y2 <= 9999 else "throws ArgumentOutOfRangeException"))
block("DateTimeValue::AddMonths(int) #instants", av, 600)
block("DateTimeValue::AddYears(int) #instants", yv, 600)
block("DateTime::DateTime(int, int, int, int, int, int, int) #instants", ["if $1 == %d, $2 == %d, $3 == %d, $4 == %d, $5 == %d, $6 == %d, $7 == %d => returns, this'.value == %d" % (split_day(v // TPD)[:3] + (v // TPH % 24, v // TPM % 60, v // TPS % 60, v // TPMS % 1000, v // TPMS * TPMS)) for v in INSTANTS])
# fractional amounts at particular values: rounded to the nearest millisecond, a half away from zero
for n, s in (("Days", 86400000), ("Hours", 3600000), ("Minutes", 60000), ("Seconds", 1000), ("Milliseconds", 1)):
    c = []
    for x in (0.5, -0.5, 1.5, -1.5, 2.0, -3.0, 0.25, -0.25, 0.4999, 100.0, 0.0005, -0.0005, 0.125):
        ms = int(x * s + (0.5 if x >= 0 else -0.5))
        for v in (DAYS[20] * TPD + 12345678, TPD // 2, MAXT - TPD // 4):
            r = v + ms * TPMS
            c.append("if this.value == %d, $1 is not nan, $1 == %r => %s" % (v, x, "returns, ret.value == %d" % r if 0 <= r <= MAXT else "throws ArgumentOutOfRangeException"))
    block("DateTimeValue::Add%s(double) #values" % n, c)
print("\n".join(out))
