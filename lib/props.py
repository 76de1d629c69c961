"""The properties, and which entry points, rules and specifications decide each of them.
rules: [(regex on the short signature of an entry point, [rule names])], spec: files under spec/, structural: [(function, args)]."""
ASSUMPTIONS = ["single-threaded callers",
               "requests to the platform allocator succeed and return zeroed memory (exhaustion is a separate, documented finding)",
               "references passed in are null or point to objects that satisfy their class invariant; raw text arguments are terminated"]
MEM = ["bounds", "uaf", "badptr", "overlap"]
ARR = r"^(Array|Buffer|DataAccess)::"
BOX = r"^(Boolean|Byte|SByte|Char|U?Int(16|32|64)|Single|Double)Value::"
NUM = r"^(Byte|SByte|U?Int(16|32|64)|Single|Double)Value::"
TIME = r"^(DateTime|TimeSpan)Value::"
EXPL = ("Whole-program path-sensitive abstract interpretation of the library's LLVM bitcode compiled from /repo on this run: every listed entry point is analysed for all "
        "arguments and all object states allowed by the class invariants; each obligation is a program point in a calling context together with a rule, discharged when the "
        "inferred invariants entail the safety condition.")
SPECEXPL = ("Contract checking by whole-program path-sensitive abstract interpretation of the LLVM bitcode compiled from /repo on this run: each case of the specification (an input partition "
            "and what must hold) is one obligation per reachable outcome, for all inputs in the partition.")
IN = {"over": ["inputs"], "text": ""}


def q(text, *over):
    return {"over": list(over) or ["inputs"], "text": text}


def mech(*pairs):
    return [{"name": a, "where": b} for a, b in pairs]


D = "DotNetLibrary/"
PROPS = {}


def prop(pid, title, statement, quant, why, files, mechanism, **kw):
    PROPS[pid] = dict(title=title, statement=statement, quantifier=quant, why=why, files=files, mechanism=mechanism, **kw)


prop("C01", "Array and buffer operations stay inside the array's memory",
     "No operation on an array or on the bytes of an array (construction, element access, copy, clear, search, block copy, destruction) reads or writes outside the element memory of the arrays it was given, for any indexes, counts, element types and dimensions. Bad arguments end in an exception, never in a memory error.",
     q("all element types, ranks, dimensions, indexes, counts and argument arrays, including null and self overlapping copies"),
     "Tests use a handful of small arrays; the guarantee concerns every index/count combination including those whose sum wraps.",
     [D + "src/Array.cpp", D + "include/Array.h", D + "src/Buffer.cpp"],
     mech(("range verification before every copy", "Array::VerifyRange and the checks in Array::Copy, Array::Clear, Buffer::BlockCopy"), ("bounds check on element addresses", "Array::Address")),
     rules=[(ARR, MEM + ["invariant:Array"])], min_entries=20, explanation=EXPL)
prop("C02", "Array element addressing is row major and checked per dimension",
     "An element access of an array of rank one to three succeeds exactly when each index lies inside its own dimension, and then addresses the row-major element; otherwise it raises an index error. Length, rank, per-dimension length and bounds always agree with the dimensions the array was created with, and impossible dimensions are rejected.",
     q("all dimensions, ranks, element types and index tuples"),
     "An index that is out of range in one dimension but inside the total element count is only noticed by checking every combination.",
     [D + "src/Array.cpp", D + "include/Array.h"],
     mech(("address computation", "Array::Address"), ("construction", "Array::Array"), ("dimension queries", "Array::GetLength, GetLowerBound, GetUpperBound")),
     spec=["array_access.spec"], explanation=SPECEXPL)
prop("C03", "Array and buffer ranges are accepted exactly when they are valid",
     "Copying, clearing and searching arrays, and reading or writing their raw bytes, raises an exception for every null array, negative index or count, range that leaves the array, rank mismatch or non-primitive element type, and completes for every valid range including empty ones. Reading an element yields a box of the element type.",
     q("all index and count arguments including those whose sum exceeds the integer range, all element types and ranks"),
     "Wrap-around in start plus count, and empty ranges at the very end, are single points of the input space.",
     [D + "src/Array.cpp", D + "src/Buffer.cpp"],
     mech(("range verification", "Array::VerifyRange"), ("byte range verification", "Buffer::BlockCopy, GetByte, SetByte")),
     spec=["array_args.spec", "object.py:Primitive"], explanation=SPECEXPL)
prop("C04", "Null references raise an exception instead of being dereferenced",
     "No operation of the library that the translator admits dereferences a null reference: a null argument, a null element of an array of references or an absent optional value either has a defined result or raises an exception.",
     q("every admitted operation with every combination of null and non-null reference arguments and contents"),
     "Most tests pass only non-null arguments; the guarantee is about all combinations, also those reached through nested calls.",
     [D + "src", D + "include"], mech(("null checks at the entry of operations", "all library sources")),
     rules=[(r"", ["null"])], min_entries=500, explanation=EXPL)
prop("C05", "Memory is released once, and only memory the object owns",
     "Objects release exactly the memory they allocated themselves: nothing is released twice, no memory supplied by the caller, embedded in the object or shared with another object is released, and released memory is not used again.",
     q("all objects in all states their operations can bring them to, and all arguments", "inputs", "histories"),
     "A double release only corrupts the pool; it shows as a failure much later and in a different place, if at all.",
     [D + "src", "PlatformSupport/PlatformSupport.cpp"], mech(("ownership flags", "String::allocate, Array::ownsData, the internal memory of StringBuilder")),
     rules=[(r"", ["free", "uaf"])], min_entries=500, explanation=EXPL)
prop("C06", "No operation uses a value that was never set",
     "No result, branch, address or stored field of a library operation depends on memory that was never written, and every output argument is set on each path that returns normally, also when parsing fails.",
     q("all arguments and all paths through each admitted operation"),
     "Unset memory usually happens to contain plausible values in a test run.",
     [D + "src", D + "include"], mech(("initialisation in constructors", D + "include"), ("output arguments of TryParse operations", "*Value::TryParse")),
     rules=[(r"", ["uninit", "outparam"])], min_entries=500, explanation=EXPL)
prop("C07", "Integer arithmetic never traps",
     "No admitted operation executes an integer division or remainder by zero or of the smallest integer by minus one: such requests raise an exception or have a defined result.",
     q("all arguments of all admitted operations"),
     "One divisor and one dividend out of 2^64 trap; sampling does not meet them.",
     [D + "src/DotNetMath.cpp", D + "src/TimeSpanValue.cpp", D + "src/DateTimeValue.cpp"], mech(("divisor checks", "Math::DivRem, TimeSpanValue::Divide")),
     rules=[(r"", ["div"])], min_entries=500, explanation=EXPL)
prop("C08", "Failures are reported only as library exceptions",
     "Every failure of an admitted operation surfaces as one of the library's exception objects that the generated program can catch; no path ends the process, runs off the end of a function or throws anything else.",
     q("all arguments and all paths through each admitted operation"),
     "Error paths are numerous and most are never executed by tests.",
     [D + "src", D + "include/Exception.h"], mech(("exception classes", D + "include/Exception.h")),
     rules=[(r"", ["throwtype", "terminate", "unreachable"])], min_entries=500, explanation=EXPL)
prop("C09", "Numbers are formatted inside the memory supplied",
     "Converting a boxed number, character, date or time span to text writes only inside the character memory supplied, never more than the stated size, and leaves a terminated text there.",
     q("all values, all format texts and all buffer sizes"),
     "Overflow needs the longest value and the shortest buffer at once.",
     [D + "src"], mech(("bounded formatting", "FormatString of each value type")),
     rules=[(r"FormatString", MEM + ["format"])], min_entries=10, explanation=EXPL)
prop("C10", "Boxed values are immutable and compare without memory errors",
     "Operations on boxed booleans, characters and numbers (comparison, equality, conversion, parsing, formatting) never read or write outside the objects and texts they were given, whatever object or text is passed, and never change the value in a box (nor do those on boxed dates and time spans).",
     q("all values, all argument objects of any type, all texts"),
     "Tests compare like with like; the guarantee includes arguments of foreign types and odd texts.",
     [D + "src"], mech(("type checks before conversion", "Equals and CompareTo of each value type")),
     rules=[(BOX, MEM + ["immutbox"]), (r"^(TimeSpan|DateTime)Value::|^(Array|Object|String|StringBuilder|Math)::", ["immutbox"])], min_entries=200, explanation=EXPL)

prop("C11", "String operations stay inside the characters of their strings",
     "No operation on strings or their enumerators reads or writes outside the characters (and terminator) of the strings it was given or creates, for any text, index, count, comparison length or separator; every string produced is terminated and its stated length is inside its memory.",
     q("all texts, lengths, indexes, counts and argument combinations, including null and empty strings"),
     "Tests use short literal texts and in-range indexes; one index off by one at the very end reads only a neighbouring byte and passes.",
     [D + "src/StringDotNet.cpp", D + "include/StringDotNet.h", D + "src/CharEnumerator.cpp"],
     mech(("range checks before every character loop", "String operations"), ("allocation of results", "String constructors, String::Concat, Join, Replace")),
     rules=[(r"^(String|CharEnumerator)::(?!Compare\(wchar_t\*)", MEM + ["format", "invariant:String", "invariant:CharEnumerator"])], min_entries=40, explanation=EXPL)
prop("C12", "String builders stay inside their buffer and stay well formed",
     "Every operation of a string builder writes only inside the buffer it currently has, and leaves the builder well formed whether it returns or raises an exception: length not above capacity, capacity not above the maximum, text terminated, buffer owned by this builder alone.",
     q("all builder states reachable through its operations, all arguments", "inputs", "histories"),
     "The switch from the built-in buffer to allocated memory, and growth near the maximum, are met by few histories.",
     [D + "src/StringBuilder.cpp", D + "include/StringBuilder.h"],
     mech(("growth", "StringBuilder::EnsureCapacity / set_Capacity"), ("text movement", "StringBuilder::Insert, Remove, Replace")),
     rules=[(r"^StringBuilder::(?!Append\(wchar_t const\*, int, int\))", MEM + ["format", "invariant:StringBuilder"])], min_entries=40, explanation=EXPL)
prop("C13", "String operations accept exactly the valid arguments",
     "Each string operation raises an exception for exactly the null, negative or out-of-range arguments the .NET contract rejects, and accepts every other argument; the length or position it returns agrees with the arguments (a substring has the requested length, a found position lies inside the searched range, inserting adds the lengths).",
     q("all lengths, start indexes, counts and null/non-null combinations, including sums beyond the integer range"),
     "Each boundary (start equal to length, empty range at the end, sum that wraps) is one point of the input space.",
     [D + "src/StringDotNet.cpp", D + "src/CharEnumerator.cpp"],
     mech(("argument verification", "String::Substring, Insert, Remove, IndexOf*, LastIndexOf*, Join, CopyTo, Pad*")),
     spec=["string_args.spec"], explanation=SPECEXPL)
prop("C14", "String builder operations keep length, capacity and maximum consistent",
     "Each builder operation rejects exactly the arguments the .NET contract rejects, and otherwise changes the length by exactly what was appended, inserted or removed; capacity grows to at least the new length, never above the maximum capacity, and an operation that would exceed the maximum raises an exception instead.",
     q("all builder states, all arguments including lengths near the maximum", "inputs", "histories"),
     "Limits close to the maximum capacity or to the integer range are not reachable with the small texts of the tests.",
     [D + "src/StringBuilder.cpp"],
     mech(("capacity management", "StringBuilder::EnsureCapacity, set_Capacity, set_Length"), ("editing", "StringBuilder::Append, Insert, Remove, Replace")),
     spec=["stringbuilder_args.spec"], explanation=SPECEXPL)
prop("C15", "Strings never change once they exist",
     "No operation of the library writes into the characters of a string that already existed when the operation was called: results are new strings, and arguments keep their text.",
     q("all admitted operations and all texts"),
     "A write into an argument shows only if a test keeps and re-reads the argument afterwards.",
     [D + "src/StringDotNet.cpp", D + "src/StringBuilder.cpp", D + "src"],
     mech(("operations working on copies", "String::Replace, Trim*, ToLower, ToUpper, Insert, Remove, Concat")),
     rules=[(r"^(?!String::~)(String|StringBuilder|CharEnumerator|CharValue|Array|Object|Buffer|BitConverter)::|Parse|FormatString|ToString", ["immut"])], min_entries=150, explanation=EXPL)
prop("C16", "Floating point numbers become integers only when they fit",
     "Wherever the library turns a floating point number into an integer (conversion of boxed numbers, rounding, time spans from fractional amounts, dates from fractional days), the number is first known to be a number within the range of that integer; otherwise an exception is raised or the result is defined.",
     q("all floating point values including NaN, infinities and the edges of every integer range"),
     "The result of an unfitting conversion is undefined: it depends on compiler and processor, and a test sees only one of them.",
     [D + "src/DoubleValue.cpp", D + "src/SingleValue.cpp", D + "src/TimeSpanValue.cpp", D + "src/DateTimeValue.cpp", D + "src/DotNetMath.cpp"],
     mech(("range verification before conversion", "get_As* of DoubleValue and SingleValue, TimeSpanValue::Interval, DateTimeValue::Add*")),
     rules=[(r"^(Double|Single|TimeSpan|DateTime)(Value)?::|^Math::|get_As|Format|ToString", ["fpcast"])], min_entries=200, explanation=EXPL)
prop("C17", "A failing operation leaves builders and arrays unchanged",
     "When an operation that edits a string builder or an array raises an exception because of its arguments, the builder or array still has the contents, length and capacity it had before the call.",
     q("all objects, all arguments for which the operation fails", "inputs", "histories"),
     "Tests check that an exception is raised, hardly ever what is left behind afterwards.",
     [D + "src/StringBuilder.cpp", D + "src/Array.cpp", D + "src/Buffer.cpp"],
     mech(("verification before the first change", "StringBuilder editing operations, Array::Copy, Array::Clear, Array::SetValue")),
     rules=[(r"^(StringBuilder|Array|Buffer|CharEnumerator)::", ["atomic"])], min_entries=60, explanation=EXPL)
prop("C18", "Boxed values convert to the same number or to its low bits",
     "A boxed number reports its own type, keeps the value it was built from, and converts to every other primitive type as the language does: unchanged when it fits, the low-order bits when an integer is narrowed, nearest value for floating types, true exactly for non-zero; a floating value that no integer of the requested type can represent raises an overflow error, and types that cannot be converted raise an invalid-cast error.",
     q("all values of all boxed primitive types and all target types"),
     "Tests convert one small value per type pair; sign extension and narrowing go wrong only in the upper half of the range.",
     [D + "src", D + "include"], mech(("conversions", "get_As* of each boxed type"), ("type codes", "GetRawDataType of each boxed type")),
     spec=["boxed_convert.spec", "object.py:get_As"], explanation=SPECEXPL)
prop("C19", "Boxed values are totally ordered and equal only to equal values",
     "Comparing two boxed values (numbers, characters, booleans, dates, time spans) of one type yields negative, zero or positive exactly as their values are ordered (a missing value sorts first, not-a-number before all numbers and equal to itself, false before true), equality agrees with that, and an object of another type is never equal and cannot be compared. Object.Equals of two references gives the same answer, true for two missing references and false for one.",
     q("all pairs of values of each boxed type, and arguments of every other type or null"),
     "Differences that overflow and mixed-type arguments are not in the samples.",
     [D + "src", D + "include"], mech(("ordering", "CompareTo of each boxed type"), ("equality", "Equals of each boxed type, Object::Equals")),
     spec=["boxed_compare.spec", "object.py:Equals|CompareTo", "same.py"], harness=("same.cpp",), explanation=SPECEXPL)
prop("C20", "Math operations return the right value or raise the documented exception",
     "Abs, Sign, Min, Max, BigMul, DivRem, Divide, Floor, Ceiling, Truncate, Round, IEEERemainder, Sqrt, Pow, Log and the other Math operations return what mathematics prescribes wherever the result is determined by ordering, sign, integer arithmetic, whole numbers, NaN or infinities, and raise Overflow, DivideByZero or argument exceptions exactly for the arguments that have no result. Quotients, remainders and absolute values never wrap around; the Modulus of floating point numbers is exact and has the sign of the dividend.",
     q("all arguments of every Math overload, including the extreme integers, NaN, infinities and negative zero"),
     "The tests use small numbers; wrong overloads, swapped arguments, sign mistakes and wrap-around show only at the extremes.",
     [D + "src/DotNetMath.cpp", D + "include/DotNetMath.h"],
     mech(("definition of every operation", "Math::*")),
     spec=["object.py:Modulus", "math.spec", "mathfn.py"], explanation=SPECEXPL)
prop("C21", "Floating point values are classified exactly",
     "IsNaN, IsInfinity, IsPositiveInfinity, IsNegativeInfinity, IsNegative, IsFinite, IsNormal and IsSubnormal of Double and Single tell for every value exactly what their name says; no two of NaN, infinite and finite hold together and one of them always does.",
     q("all bit patterns of Double and Single"),
     "Tests pick one value of each class; the boundary between classes is where masks and comparisons go wrong.",
     [D + "src/DoubleValue.cpp", D + "src/SingleValue.cpp"],
     mech(("classification", "DoubleValue::Is*, SingleValue::Is*")),
     spec=["float_class.spec"], explanation=SPECEXPL)
prop("C22", "Values survive the round trip through their bytes",
     "BitConverter turns every value into as many bytes as its type has and back into the identical value, at every start index where enough bytes remain; for a null array, a start index outside the array or too few remaining bytes it raises ArgumentNull, ArgumentOutOfRange or Argument exceptions and reads nothing.",
     q("all values of all primitive types, all byte arrays and all start indexes"),
     "A round trip test uses one value per type; a byte order, width or offset mistake may not show for that value.",
     [D + "src/BitConverter.cpp", D + "include/BitConverter.h"],
     mech(("byte conversion", "BitConverter::GetBytes, To*"), ("range verification", "BitConverter::To*")),
     spec=["bitconverter.spec", "laws.spec:RoundTrip|ByteCount", "bytes.py"], harness=("laws.cpp",), explanation=SPECEXPL)
prop("C23", "The calendar is right for every date from year 1 to year 9999",
     "A date built from year, month, day and time of day is accepted exactly when that date exists and the time is valid, and its ticks, year, month, day, day of year, day of week, hour, minute, second, millisecond, date part and time of day all agree with the Gregorian calendar; leap years and month lengths follow it; adding months and years moves to the same day of the target month, or its last day; everything that would leave the years 1 to 9999 raises ArgumentOutOfRange and nothing else does. The text of a date is month/day/year hour:minute:second with two-digit minutes and seconds and AM or PM, the hour counted from 1 to 12 (0 after midnight).",
     q("every date and time of day from 0001-01-01 to 9999-12-31, every argument"),
     "There are 3.6 million days; tests check a few. Century and leap rules, month ends and the ends of the range are where calendar code breaks.",
     [D + "src/DateTimeValue.cpp", D + "include/DateTimeValue.h"],
     mech(("calendar arithmetic", "DateToTicks, DateTimeValue::GetDatePart, IsLeapYear, DaysInMonth"), ("range verification", "DateTime constructors, DateTimeValue::Add*, Subtract")),
     spec=["datetime.py", "date_text.py"], harness=("date_text.cpp",), explanation=SPECEXPL)
prop("C24", "Time span arithmetic is exact or raises Overflow",
     "Building, adding, subtracting, negating, scaling and comparing time spans gives the exact result, or raises the documented exception (Overflow, ArgumentOutOfRange, or Argument for not-a-number) when the result does not fit; it never wraps around. Days, hours, minutes, seconds and milliseconds of a span decompose it exactly, with the sign of the span.",
     q("all pairs of time spans, all components, all scale factors"),
     "Overflow happens only beyond 10,675,199 days, far away from every tested value.",
     [D + "src/TimeSpanValue.cpp", D + "include/TimeSpanValue.h"],
     mech(("overflow verification", "TimeSpanValue::Add, Subtract, Negate, Duration, Interval, Multiply, Divide, TimeSpan constructors")),
     spec=["timespan.py"], explanation=SPECEXPL)
prop("C25", "Parsing accepts exactly well-formed text and yields its exact value",
     "Parse of every integer type accepts optional white space, an optional sign and decimal digits, and nothing else; it returns exactly the number written, raises OverflowException when that number does not fit the type and FormatException when the text is no number. Parse of time spans reads days, hours, minutes, seconds and fractions exactly and rejects malformed text with FormatException; Parse of Char takes exactly one character. Parse of Double and Single accepts white space, a sign, digits with an optional point and an optional exponent (and the names of the infinities and of NaN), and nothing else: trailing text, a missing exponent and hexadecimal digits are FormatExceptions. Boolean reads True and False in any case, white space around them ignored. TryParse never raises an exception and always sets its result: true and the same value where Parse succeeds, false and zero everywhere else. A null text is an ArgumentNullException (an ArgumentException for Boolean) for Parse and false for TryParse.",
     q("all texts of every shape up to two characters beyond the longest number (characters symbolic), the limits of every type written out; floating point texts by shape (29 well-formed, 56 malformed, every class of stray character at the start, middle and end), with exact values for 27 texts and bounds for the rest; contract for texts of every length"),
     "Limits of eight types, signs, white space and stray characters at every position: tests contain a handful of texts.",
     [D + "src", D + "include"],
     mech(("number reading", "UInt64Value::TryParseInternal and Parse/TryParse of each integer type"), ("time span reading", "TimeSpanValue::TryParse"), ("floating point reading", "DoubleValue::TryParseInternal, SingleValue::TryParseInternal (wcstod and wcstof by their C contract)")),
     rules=[(r"TryParse", ["outparam"])], spec=["parse_args.py", "parse.py:Laws::(Parse|Try)"], harness=("parse.cpp",), explanation=SPECEXPL)
prop("C26", "Numbers, characters and time spans survive the round trip through their text",
     "For every value of every integer type and Char, and for every time span, Parse(ToString(value)) returns the identical value. The text of a Double shows fifteen significant digits and that of a Single seven, without trailing zeros and with an exponent only where the number is too large or too small for its digits; a number with no more digits than that is read back unchanged, also when its text was appended to or inserted into a string builder.",
     q("all values of all integer types, all characters, all time spans; for floating point numbers a table of numbers for every form of text"),
     "Sign, number of digits, zero padding and the extreme values each have their own path; tests try one value per type.",
     [D + "src", D + "include"],
     mech(("writing", "FormatString of each boxed type, Object::ToString"), ("reading", "Parse of each type")),
     spec=["parse.py:Laws::Text", "float_text.py"], harness=("parse.cpp", "float_text.cpp"), explanation=SPECEXPL)
prop("C27", "Strings: results have exactly the right characters",
     "Every string operation delivers exactly the characters, position, truth value or order its .NET contract defines: building from characters and arrays, Substring, Remove, Insert, Concat, Join, Replace (leftmost matches that do not overlap), Pad, Trim with white space or given characters, ToUpper and ToLower of ASCII letters, ToCharArray and CopyTo, Contains, StartsWith, EndsWith, IndexOf, LastIndexOf, IndexOfAny, LastIndexOfAny with every start and count (the match lies within the range searched), Equals and op_Inequality, CompareOrdinal by character code, Compare and CompareTo as an order of texts (by letter ignoring case, then lower before upper case, a prefix first, zero only for equal texts), and the enumeration of characters, which reports InvalidOperationException before the first and after the last. Characters are free: every character, the null character included, is a character like any other.",
     q("all texts of up to four characters and all search texts of up to two, every character free; every start and count valid for them"),
     "Overlapping and adjacent matches, matches that straddle the end of the range searched, empty texts and characters equal in unexpected places: tests use one typical text per operation.",
     [D + "src/StringDotNet.cpp", D + "src/StringBuilder.cpp", D + "src/CharEnumerator.cpp"],
     mech(("searching", "String::IndexOf, LastIndexOf, StringBuilder::CountSubStrings"), ("building results", "StringBuilder::ReplaceSubString, String::FromBuffer, TrimHelper, Join, Concat"), ("ordering", "String::Compare")),
     spec=["text_string.py", "text_enumerator.py"], harness=("text_string.cpp", "text_enumerator.cpp"), explanation=SPECEXPL)
prop("C28", "String builders: every edit leaves exactly the right text",
     "After any sequence of Append, AppendLine, Insert, Remove, Replace, set_Chars, set_Length, Clear and EnsureCapacity calls the builder holds exactly the text those edits make of the text before, ToString (whole or part) delivers it, and nothing is lost or changed when the text moves between internal and allocated memory. Numbers and Boolean values are appended as their text; set_Length fills with null characters; Replace touches only the range given; operations return the same builder.",
     q("all texts of up to three characters with insertions of up to two, characters free, in internal memory, exactly full, and allocated memory; every sequence of two edits and many of three; growth across the end of the internal memory"),
     "Text is damaged only when an edit meets a particular combination of position, length and memory, in particular when capacity is exactly used up.",
     [D + "src/StringBuilder.cpp", D + "include/StringBuilder.h"],
     mech(("editing in place", "StringBuilder::Append(Char*, Int32, Int32), Remove, ReplaceSubString"), ("growing", "StringBuilder::set_Capacity")),
     spec=["text_builder.py"], harness=("text_stringbuilder.cpp",), explanation=SPECEXPL)
prop("C29", "Arrays and buffers: copies, changes and lookups move exactly the right elements",
     "Array::Copy, ConstrainedCopy and CopyTo and Buffer::BlockCopy move exactly the elements asked for, also when source and destination are the same array and overlap, and change nothing else; Clear zeroes exactly its range; new arrays are all zero; SetValue changes exactly the element addressed (by indexes or by index list, in one, two or three dimensions, stored row after row) and GetValue returns it in a box of equal value; IndexOf finds the first equal element or returns -1; Buffer::GetByte, SetByte and ByteLength agree with the bytes of the array.",
     q("all element values of all integer types and Char, every valid combination of offsets and lengths of arrays of three and four elements, matrices 2x3 and cubes 2x3x2"),
     "Overlapping moves, transposed indexes and off-by-one ranges show only for particular offsets; dimensions of different size are needed to tell indexes apart.",
     [D + "src/Array.cpp", D + "src/Buffer.cpp"],
     mech(("moving elements", "Array::Copy, Buffer::BlockCopy"), ("addressing", "Array::ComputeIndex"), ("boxing", "Array::GetValue, SetValue")),
     spec=["text_array.py"], harness=("text_array.cpp",), explanation=SPECEXPL)

prop("C30", "Characters are classified as in Unicode; Boolean values have one text",
     "For every ASCII character IsDigit, IsNumber, IsLetter, IsLetterOrDigit, IsLower, IsUpper, IsWhiteSpace, IsSeparator, IsPunctuation, IsSymbol, IsControl and the surrogate tests of Char give exactly the answer of its Unicode category; ToUpper and ToLower exchange the letters and keep every other character; GetNumericValue is the value of a digit and -1 otherwise. The overloads that take a text and an index agree with them for the character at that index and raise ArgumentNull or ArgumentOutOfRange exceptions otherwise. A character's text is that one character and is parsed back; Boolean values are written True and False, and Boolean parsing accepts exactly these words in any case, with or without white space around them, and rejects every other text with FormatException.",
     q("all ASCII characters (surrogates: all characters), all indexes; all texts of up to six non-blank ASCII characters for Boolean parsing"),
     "Tests try one member and one non-member of each class; classes differ in a few symbols.",
     [D + "src/CharValue.cpp", D + "src/BooleanValue.cpp"],
     mech(("classification", "CharValue::Is*, ToUpper, ToLower, GetNumericValue"), ("text of Boolean values", "BooleanValue::ToString, Parse")),
     spec=["char.py", "text_char.py", "char_at.py"], harness=("text_char.cpp", "char_at.cpp"), explanation=SPECEXPL)
prop("C31", "Published constants have their defined values and never change",
     "MaxValue, MinValue, Epsilon, NaN, PositiveInfinity and NegativeInfinity of the numeric types, Char, DateTime and TimeSpan, the TicksPer constants, TimeSpan Zero, PI and E, the empty string, the texts True and False and IsLittleEndian have exactly the value their type defines from the moment the library is loaded; no function of the library writes to them afterwards, and no constant is built from one of another source file that may not be initialised yet.",
     q("all published constants, all functions of the library"),
     "A constant that is off in the last digit, narrowed, or overwritten by some operation is noticed only by code at the limits.",
     [D + "src", D + "include"], mech(("definitions", "static members of *Value, Math, String, BitConverter"), ("use", "every function that can write to a static member")),
     spec=["constants.py"], harness=("constants.cpp",), structural=[("constants", ())], explanation=SPECEXPL)

prop("C32", "Operations keep no hidden state",
     "Apart from the platform's memory pool the library keeps nothing between calls: no function writes a global or static variable after loading, so the result of an operation depends only on its arguments and the objects it is given.",
     q("every function of the library and its helpers", "histories"),
     "A cache or scratch variable shared between calls gives wrong results only for particular sequences of calls.",
     [D + "src", D + "include", "DotNetLibrarySupport"], mech(("absence of writes", "every function of the library")),
     structural=[("stateless", ())], explanation="Effect analysis over the linked LLVM bitcode compiled from /repo on this run: every store, atomic operation, memory intrinsic and call in every function is traced through casts, element addresses, merges and parameters (interprocedural write summaries) to the variables it can write; one obligation per function.")
prop("C33", "The platform memory hands out separate, zeroed, aligned blocks",
     "After PlatformSetup every block of memory handed out lies inside the pool, is aligned to eight bytes relative to the others, is all zero and does not overlap any block handed out since the setup, whatever sizes were requested and released before; a request that does not fit the pool (32767 bytes in all) is answered with null and leaves the pool usable, one that fits is granted; releasing a block in the pool has no effect on other blocks; each PlatformSetup makes the whole pool available again. Without setup blocks come zeroed from the system and are released there exactly once.",
     q("every size of request up to 2^64-1, every state the pool can reach, before and after setup", "inputs", "histories"),
     "The unit tests never set up the pool; rounding and the end of the pool matter only when it is nearly full.",
     ["PlatformSupport/PlatformSupport.cpp", "PlatformSupport/PlatformSupport.h"],
     mech(("pool", "my_operator_new_replacement, PlatformMemorySetup"), ("release", "my_operator_delete_replacement")),
     spec=["platform.spec"], harness=("platform.cpp",), harness_rules=[(r"^Pool::(Write|WritePlain|Across|Read\w+)\(", MEM + ["free", "uninit"])], explanation=SPECEXPL)

prop("C34", "Exceptions form the documented hierarchy and carry their message and cause",
     "Every exception type is caught by handlers for itself, for its base types as .NET defines them (ArgumentNull and ArgumentOutOfRange are Argument exceptions, Overflow and DivideByZero are Arithmetic exceptions, all are Exceptions) and by no other handler; the object caught is the one thrown; each type has a message by default, a message given is kept unchanged, the inner exception is the one given or null, and GetBaseException is the innermost cause.",
     q("all pairs of exception type and handler type, all one-character messages, chains of up to two causes", "inputs", "programs"),
     "Tests only see that some exception of the expected type arrives; a wrong base class is noticed only by programs that catch the base.",
     [D + "include/Exception.h"], mech(("type hierarchy", "Exception.h"), ("message and cause", "Exception::get_Message, get_InnerException, GetBaseException")),
     spec=["except.py"], harness=("except.cpp",), explanation=SPECEXPL)
prop("C35", "Translated programs run in fresh platform memory and their failures are reported",
     "Run sets up the platform memory before the program starts, at every run anew, so that runs recycle the memory of earlier runs and no memory of the program is released one by one; it calls the program exactly once, lets no library exception escape, sends the message of an exception exactly once and nothing otherwise, and leaves the library usable for further runs. Send delivers exactly the text given. Platform data is shared with the program: its array wraps the platform's elements, which changes through the wrapper reach and deleting the wrapper keeps.",
     q("all exception types and one-character messages, all sequences of up to three runs, all sizes of allocation", "inputs", "histories"),
     "The integration test needs the .NET tool chain and is not run here; nothing else executes a translated program.",
     ["DotNetLibrarySupport/DotNetLibrarySupport.cpp", "DotNetLibrarySupport/DotNetLibrarySupport.h", "PlatformSupport/PlatformSupport.cpp"],
     mech(("running", "TranslatorSupport::Run, Send"), ("platform data", "DataAccess::get_ArrayData, get_DoubleData")),
     spec=["run.py"], harness=("run.cpp",), harness_rules=[(r"^Pool::Granted", MEM + ["free", "null"])], explanation=SPECEXPL)

prop("C36", "Everything the translator admits exists with its .NET signature",
     "Every member ValidTypes.xml admits, and everything the translator writes by itself (boxing and unboxing, array creation and element access, division, floating point remainder, the constants of the numeric types, exceptions), compiles against the library, binds to a function or constant the library defines, takes numbers in the parameter type .NET gives them without conversion, and has the .NET result type.",
     q("every admitted member and every construct the translator emits", "programs"),
     "The integration test needs the .NET tool chain; a missing overload or a wider result type silently converts numbers or only fails when somebody translates a program that uses it.",
     ["CppTranslator/ValidTypes.xml", D + "include", D + "src"], mech(("declared members", D + "include"), ("admitted members", "CppTranslator/ValidTypes.xml"), ("emitted constructs", "CppTranslator/MyIlInstructionVisitor.cs")),
     structural=[("interface", ())], explanation="Type-level witnesses generated on this run from ValidTypes.xml and the list of constructs the translator emits: each is one expression compiled against the current headers, its result type asserted statically, and the function it binds to read from the compiled witness, compared with the documented parameter types and looked up among the definitions of the linked library. Nothing is executed.")

prop("C37", "The kind of an exception names what was wrong",
     "When exactly one thing about a call of String, StringBuilder, Array or Buffer is wrong, the exception says which: a null argument is reported as ArgumentNullException and nothing else is; an index, start, count or length outside the text, builder or array, or beyond a builder's greatest capacity, as a range exception (IndexOutOfRangeException for the element access of arrays, texts and builders and for array dimensions, ArgumentOutOfRangeException for arguments of operations, either of them where StringBuilder inserts or takes a part); an array of the wrong number of dimensions as RankException; an array of unusable elements, an empty text to search for, or a block that does not fit a copy of an array or buffer as an ArgumentException that is not ArgumentNullException.",
     q("all texts, builders and arrays (any length, capacity, dimensions), all integer arguments"),
     "Programs select their handler by the kind of exception; tests check for two kinds, in one class.",
     [D + "src/StringDotNet.cpp", D + "src/StringBuilder.cpp", D + "src/Array.cpp", D + "src/Buffer.cpp"],
     mech(("checks of arguments", "every public operation of String, StringBuilder, Array, Buffer"), ("ranges", "Array::VerifyIndexWithinRangeOfArray, ComputeIndex")),
     spec=["errors.py"], explanation=SPECEXPL)

NOTE = ("Static, all inputs: obligations the analysis discharges hold for every input under the stated assumptions; those it cannot discharge are counted as undecided in the evidence "
        "(discharged < obligations). Trusts the clang front end, the analyser in absint/ and its models of libc.")
NOT_APPLICABLE = {}
