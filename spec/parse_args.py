# Specification of the parsers for every text, whatever its contents.
C = {"SByte": "signed char", "Byte": "unsigned char", "Int16": "short", "UInt16": "unsigned short", "Int32": "int", "UInt32": "unsigned int", "Int64": "long", "UInt64": "unsigned long", "Char": "wchar_t", "Double": "double", "Single": "float"}
o = []
for t in C:
    o += ["fn %sValue::Parse(String*)" % t, "if $1 is null => throws ArgumentNullException", "if $1 is not null => may-throw FormatException%s" % ("" if t in ("Char", "Double", "Single") else "/OverflowException"),
          "if $1 is not null, $1.length == 0 => throws FormatException"]
    z = "0.0" if t in ("Double", "Single") else "0"
    o += ["fn %sValue::TryParse(String*, %s&)" % (t, C[t]), "if $1 is null => returns, ret == 0, $2' == %s" % z, "if $1 is not null => returns, ret == 1 | $2' == %s" % z,
          "if $1 is not null, $1.length == 0 => returns, ret == 0, $2' == %s" % z]
o += ["fn CharValue::Parse(String*) #2", "if $1 is not null, $1.length >= 2 => throws FormatException", "if $1 is not null, $1.length == 1 => returns",
      "fn CharValue::TryParse(String*, wchar_t&) #2", "if $1 is not null, $1.length >= 2 => returns, ret == 0, $2' == 0", "if $1 is not null, $1.length == 1 => returns, ret == 1"]
o += ["fn BooleanValue::Parse(String*)", "if $1 is null => throws ArgumentException", "if $1 is not null => may-throw FormatException", "if $1 is not null, $1.length == 0 => throws FormatException",
      "fn TimeSpanValue::Parse(String*)", "if $1 is null => throws ArgumentNullException", "if $1 is not null => may-throw FormatException/OverflowException", "if $1 is not null, $1.length == 0 => throws FormatException",
      "fn TimeSpanValue::TryParse(String*, TimeSpan&)", "if $1 is null => returns, ret == 0, $2'.value == 0", "if $1 is not null => returns, ret == 1 | $2'.value == 0", "if $1 is not null, $1.length == 0 => returns, ret == 0, $2'.value == 0"]
print("\n".join(o))
