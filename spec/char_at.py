"""The character at an index of a text of any length is classified as the character itself (ASCII)."""
HERE = "if $1 is not null, $2 >= 0, $2 < $1.length%s => returns, ret == 1"
for name in "IsControl IsDigit IsNumber IsLetter IsLetterOrDigit IsLower IsUpper IsSeparator IsWhiteSpace".split():
    print("fn CharAt::%s(String*, int)" % name)
    print(HERE % "")
for name in "IsPunctuation GetNumericValue".split():
    print("fn CharAt::%s(String*, int, int)" % name)
    for c in range(128):
        print(HERE % (", $3 == %d" % c))
