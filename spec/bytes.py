# Bytes of numbers: lowest byte first, in both directions, at any place of the array; and the text of bytes.
out = []
B = lambda n: "%%%s >= 0, %%%s <= 255" % (n, n)
for ty, c, n, signed in (("Int16", "short", 2, 1), ("UInt16", "unsigned short", 2, 0), ("Int32", "int", 4, 1), ("UInt32", "unsigned int", 4, 0), ("Int64", "long", 8, 1), ("UInt64", "unsigned long", 8, 0), ("Char", "wchar_t", 2, 0)):
    out.append("fn Laws::ByteOrder%s(%s, int)" % (ty, c))
    for v in (0, 1, 0x0102030405060708, 0xF0E0D0C0B0A09080, 2**64 - 1, 0x80, 0x8000, 0x8000000080008000):
        w = v % 2 ** (8 * n)
        if signed and w >= 2 ** (8 * n - 1): w -= 2 ** (8 * n)
        for i in range(n): out.append("if $1 == %d, $2 == %d => returns, ret == %d" % (w, i, (w >> (8 * i)) % 256))
    out.append("if $1 >= 0, $1 <= 255, $2 == 0 => returns, ret == $1")
    for i in range(1, n): out.append("if $1 >= 0, $1 <= 255, $2 == %d => returns, ret == 0" % i)
    if n <= 8: out.append("if $1 == 256*%%h + %%l, %s, %%h >= 0, %%h < %d, $2 == 0 => returns, ret == %%l" % (B("l"), 2 ** (8 * n - 9)))
out += ["fn Laws::ByteOrderBoolean(bool, int)", "if $1 == 0, $2 == 0 => returns, ret == 0", "if $1 == 1, $2 == 0 => returns, ret == 1"]
for ty, n, signed in (("Int16", 2, 1), ("UInt16", 2, 0), ("Char", 2, 0), ("Int32", 4, 1), ("UInt32", 4, 0)):
    out.append("fn Laws::ByteOrderTo%s(unsigned char, unsigned char, unsigned char, unsigned char, int)" % ty)
    for s in range(0, 4 - n + 1):
        e = " + ".join("%d*$%d" % (256 ** i, s + i + 1) for i in range(n))
        top = "$%d" % (s + n)
        if signed:
            out.append("if $5 == %d, %s <= 127 => returns, ret == %s" % (s, top, e))
            out.append("if $5 == %d, %s >= 128 => returns, ret == %s - %d" % (s, top, e, 256 ** n))
        else: out.append("if $5 == %d => returns, ret == %s" % (s, e))
    for v in ((1, 2, 3, 4), (0xF1, 0x82, 0x73, 0xE4), (255, 255, 255, 255), (0, 128, 0, 128), (127, 255, 255, 127)):
        for s in range(0, 4 - n + 1):
            w = int.from_bytes(bytes(v[s:s + n]), "little", signed=bool(signed))
            out.append("if $1 == %d, $2 == %d, $3 == %d, $4 == %d, $5 == %d => returns, ret == %d" % (v + (s, w)))
    out.append("if $5 > %d => throws ArgumentException/ArgumentOutOfRangeException" % (4 - n))
    out.append("if $5 < 0 => throws ArgumentOutOfRangeException")
out.append("fn Laws::ByteOrderToBoolean(unsigned char, unsigned char, unsigned char, unsigned char, int)")
for s in range(4): out += ["if $5 == %d, $%d == 0 => returns, ret == 0" % (s, s + 1), "if $5 == %d, $%d != 0 => returns, ret == 1" % (s, s + 1)]
out.append("fn Laws::HexText(unsigned char, unsigned char, unsigned char, unsigned char, int, int)")
dig = lambda d: 48 + d if d < 10 else 55 + d
def half(i, j): return "$%d == 16*%%h + %%l, %%h >= %d, %%h <= %d, %%l >= %d, %%l <= %d" % ((i,) + ((0, 9), (10, 15))[j // 2] + ((0, 9), (10, 15))[j % 2])
for s, n in ((0, 1), (3, 1), (0, 2), (1, 3), (0, 4), (0, -1), (2, -1)):
    cnt = 4 - s if n < 0 else n
    out.append("if $5 == %d, $6 == %d => returns, ret.length == %d" % (s, n, 3 * cnt - 1))
    for k in range(cnt):
        if k: out.append("if $5 == %d, $6 == %d => returns, ret[%d] == 45" % (s, n, 3 * k - 1))
        for j in range(4) if cnt <= 2 else ():
            out.append("if $5 == %d, $6 == %d, %s => returns, ret[%d] == %%h + %d, ret[%d] == %%l + %d" % (s, n, half(s + k + 1, j), 3 * k, 55 if j // 2 else 48, 3 * k + 1, 55 if j % 2 else 48))
    for v in ((0x09, 0x0A, 0x90, 0xA0), (0xFF, 0x00, 0x1F, 0xF1), (0x7F, 0x80, 0x9A, 0xAB)):
        t = "-".join("%02X" % q for q in v[s:s + cnt])
        out.append("if $1 == %d, $2 == %d, $3 == %d, $4 == %d, $5 == %d, $6 == %d => returns, %s" % (v + (s, n, ", ".join("ret[%d] == %d" % (i, ord(ch)) for i, ch in enumerate(t)))))
print("\n".join(out))
