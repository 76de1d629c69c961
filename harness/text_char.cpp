// Written by gen_text.py. Never executed: analysed together with the library by absint against spec/text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	Boolean CIsControl1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsControl(s, i); }
	Boolean CIsControl2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsControl(s, i); }
	Boolean CIsControl3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsControl(s, i); }
	Boolean CIsDigit1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsDigit(s, i); }
	Boolean CIsDigit2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsDigit(s, i); }
	Boolean CIsDigit3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsDigit(s, i); }
	Boolean CIsNumber1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsNumber(s, i); }
	Boolean CIsNumber2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsNumber(s, i); }
	Boolean CIsNumber3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsNumber(s, i); }
	Boolean CIsLetter1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsLetter(s, i); }
	Boolean CIsLetter2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsLetter(s, i); }
	Boolean CIsLetter3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsLetter(s, i); }
	Boolean CIsLetterOrDigit1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsLetterOrDigit(s, i); }
	Boolean CIsLetterOrDigit2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsLetterOrDigit(s, i); }
	Boolean CIsLetterOrDigit3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsLetterOrDigit(s, i); }
	Boolean CIsLower1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsLower(s, i); }
	Boolean CIsLower2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsLower(s, i); }
	Boolean CIsLower3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsLower(s, i); }
	Boolean CIsUpper1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsUpper(s, i); }
	Boolean CIsUpper2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsUpper(s, i); }
	Boolean CIsUpper3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsUpper(s, i); }
	Boolean CIsPunctuation1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsPunctuation(s, i); }
	Boolean CIsPunctuation2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsPunctuation(s, i); }
	Boolean CIsPunctuation3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsPunctuation(s, i); }
	Boolean CIsSeparator1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsSeparator(s, i); }
	Boolean CIsSeparator2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsSeparator(s, i); }
	Boolean CIsSeparator3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsSeparator(s, i); }
	Boolean CIsWhiteSpace1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::IsWhiteSpace(s, i); }
	Boolean CIsWhiteSpace2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::IsWhiteSpace(s, i); }
	Boolean CIsWhiteSpace3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::IsWhiteSpace(s, i); }
	Double CGetNumericValue1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::GetNumericValue(s, i); }
	Double CGetNumericValue2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return CharValue::GetNumericValue(s, i); }
	Double CGetNumericValue3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return CharValue::GetNumericValue(s, i); }
	String* CToString(Char c0) { return CharValue::ToString(c0); }
	String* CBoxToString(Char c0) { CharValue v(c0); return v.ToString(); }
	Char CParse(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return CharValue::Parse(s); }
	String* BoolText(Int32 b) { BooleanValue v(b != 0); return v.ToString(); }
	Boolean BoolParse0() { String* s = new String(L' ', 0); return BooleanValue::Parse(s); }
	Boolean BoolParse1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return BooleanValue::Parse(s); }
	Boolean BoolParse2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return BooleanValue::Parse(s); }
	Boolean BoolParse3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return BooleanValue::Parse(s); }
	Boolean BoolParse4(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return BooleanValue::Parse(s); }
	Boolean BoolParse5(Char c0, Char c1, Char c2, Char c3, Char c4) { String* s = new String(L' ', 5); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; return BooleanValue::Parse(s); }
	Boolean BoolParse6(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { String* s = new String(L' ', 6); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; *s->Address(4) = c4; *s->Address(5) = c5; return BooleanValue::Parse(s); }
}
