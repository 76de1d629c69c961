"""The text of a date: month/day/year hour:minute:second with a clock of twelve hours (the hour after midnight is written 0)."""
def days(y, m, d):
    k = y - 1
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return k * 365 + k // 4 - k // 100 + k // 400 + sum([31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:m - 1]) + d - 1
def ticks(y, m, d, h, i, s, f=0):
    return ((days(y, m, d) * 24 + h) * 3600 + i * 60 + s) * 10000000 + f
def text(y, m, d, h, i, s):
    return "%d/%d/%d %d:%02d:%02d %s" % (m, d, y, h - 12 if h > 12 else h, i, s, "PM" if h >= 12 else "AM")
# every minute, second and fraction of an hour
HOURS = [(2019, 7, 4, h) for h in range(0, 24)] + [(2020, m, 28, 9) for m in range(1, 13)] + [(1999, 12, d, 13) for d in range(1, 32)] + [(1, 1, 1, 1), (9999, 12, 31, 23), (2000, 2, 29, 12), (1900, 3, 1, 11), (999, 10, 10, 10), (1600, 2, 29, 22), (2100, 2, 28, 8)]
for name, pre, n in (("fn Laws::DateText(unsigned long)", "", "length"), ("fn Laws::DateAppended(unsigned long)", ">", "len")):
    print(name)
    for y, m, d, h in HOURS:
        t = pre + text(y, m, d, h, 0, 0)
        p = len(t) - 8
        print("if $1 == %d + %%i * 600000000 + %%s * 10000000 + %%f, %%i >= 0, %%i <= 59, %%s >= 0, %%s <= 59, %%f >= 0, %%f <= 9999999 => returns, ret.%s == %d, %s, ret[%d] * 10 + ret[%d] == %%i + 528, ret[%d] * 10 + ret[%d] == %%s + 528, %s"
              % (ticks(y, m, d, h, 0, 0), n, len(t), ", ".join("ret[%d] == %d" % (k, ord(x)) for k, x in enumerate(t) if k not in (p, p + 1, p + 3, p + 4)), p, p + 1, p + 3, p + 4,
                 ", ".join("ret[%d] >= 48, ret[%d] <= 57" % (p + k, p + k) for k in (0, 1, 3, 4))))
