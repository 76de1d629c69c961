// The classification of the character at an index of a text is that of the character itself, for texts of any length.
#include "DotnetTypes.h"
#include "StringDotNet.h"
#include "CharValue.h"
using namespace DotnetLibrary;
namespace CharAt
{
#define AT(NAME) \
	Boolean NAME(String* s, Int32 i) { Char c = s->get_Chars(i); return c < 0 || c > 127 || CharValue::NAME(s, i) == CharValue::NAME(c); }
#define AT_EACH(NAME) \
	Boolean NAME(String* s, Int32 i, Int32 c) { return s->get_Chars(i) != c || CharValue::NAME(s, i) == CharValue::NAME((Char) c); }
	AT(IsControl)
	AT(IsDigit)
	AT(IsNumber)
	AT(IsLetter)
	AT(IsLetterOrDigit)
	AT(IsLower)
	AT(IsUpper)
	AT(IsSeparator)
	AT(IsWhiteSpace)
	AT_EACH(IsPunctuation)
	AT_EACH(GetNumericValue)
}
