"""The text of a floating point number shows 15 significant digits (7 of a Single), and a number with no more digits than that is read back unchanged."""
import struct
single = lambda x: struct.unpack("f", struct.pack("f", x))[0]
COMMON = [1.0, -1.0, 7.0, 10.0, 100.0, -42.0, 0.5, 0.25, -0.125, 1.5, 12.75, 99999.0, 100000.0, 999999.0, 1000000.0, 1234567.0, -7654321.0, 1e9, 1.5e10, 0.001, 0.0001, 1e-5, 2.5e-7, 1e20, -3.0e30, 1e-30, 123.456, 3.14159, 0.1]
DOUBLE = [123456789.0, 123456789012345.0, 1e14, 1e15, 1e16, 0.123456789012345, 1e100, 1e-100, -2.5e-300, 1.7976931348623e308, 4503599627370.5, 99999999999999.0, 1234567.25]
for t, ct, digits, more in (("Double", "double", 15, DOUBLE), ("Single", "float", 7, [])):
    vals = [(x, x if t == "Double" else single(x)) for x in COMMON + more]
    for name, pre, post, n in (("Text", "", "", "length"), ("Append", ">", "", "len"), ("Insert", "<", ">", "len")):
        print("fn Laws::Float%s%s(%s)" % (name, t, ct))
        for x, v in vals:
            s = pre + ("%.*G" % (digits, v)) + post
            print("if $1 == %r, $1 is not nan => returns, ret.%s == %d, %s" % (v, n, len(s), ", ".join("ret[%d] == %d" % (k, ord(c)) for k, c in enumerate(s))))
    print("fn Laws::FloatBack%s(%s)" % (t, ct))
    for x, v in vals:
        print("if $1 == %r, $1 is not nan => returns, ret == %r, ret is not nan" % (v, v))
