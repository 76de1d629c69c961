// Written by gen_text.py. Never executed: analysed together with the library by absint against spec/text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	String* Make0() { String* s = new String(L' ', 0); return s; }
	String* MakePart0(Int32 st, Int32 ct) { Char t[] = { 0 }; return new String(t, st, ct); }
	String* MakeArray0(Int32 st, Int32 ct) { Char t_a[] = { 0 }; Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = t_a[i]; return new String(a, st, ct); }
	String* Copy0() { String* s = new String(L' ', 0); return String::Copy(s); }
	Char Chars0(Int32 i) { String* s = new String(L' ', 0); return s->get_Chars(i); }
	Int32 Length0() { String* s = new String(L' ', 0); return s->get_Length(); }
	String* Substring0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); return s->Substring(st, ct); }
	String* Remove0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); return s->Remove(st, ct); }
	Array* ToCharArray0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); return s->ToCharArray(st, ct); }
	Array* CopyTo0(Char d0, Char d1, Char d2, Char d3, Int32 st, Int32 at, Int32 ct) { String* s = new String(L' ', 0);Char t_d[] = { d0, d1, d2, d3, 0 }; Array* d = new Array(CharType, 4); for (Int32 i = 0; i < 4; ++i) *(Char*) d->Address(i) = t_d[i]; s->CopyTo(st, d, at, ct); return d; }
	String* Insert0_0(Int32 at) { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->Insert(at, w); }
	String* Concat0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Concat(s, w); }
	Boolean Contains0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->Contains(w); }
	Boolean StartsWith0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->StartsWith(w); }
	Boolean EndsWith0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->EndsWith(w); }
	Int32 IndexOfText0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom0_0(Int32 st) { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->IndexOf(w, st); }
	Int32 IndexOfTextAll0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->IndexOf(w); }
	Int32 IndexOfAny0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0);Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom0_0(Int32 st) { String* s = new String(L' ', 0);Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	String* Insert0_1(Char w0, Int32 at) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Insert(at, w); }
	String* Concat0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Concat(s, w); }
	Boolean Contains0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Contains(w); }
	Boolean StartsWith0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->StartsWith(w); }
	Boolean EndsWith0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->EndsWith(w); }
	Int32 IndexOfText0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom0_1(Char w0, Int32 st) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w); }
	Int32 IndexOfAny0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0);Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom0_1(Char w0, Int32 st) { String* s = new String(L' ', 0);Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	String* ReplaceText0_1_0(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText0_1_1(Char w0, Char r0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText0_1_2(Char w0, Char r0, Char r1) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText0_1_3(Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet0_1(Char w0) { String* s = new String(L' ', 0);Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet0_1(Char w0) { String* s = new String(L' ', 0);Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet0_1(Char w0) { String* s = new String(L' ', 0);Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join0_1(Char w0, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar0_1(Char w0, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Insert0_2(Char w0, Char w1, Int32 at) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Insert(at, w); }
	String* Concat0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w); }
	Boolean Contains0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Contains(w); }
	Boolean StartsWith0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->StartsWith(w); }
	Boolean EndsWith0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->EndsWith(w); }
	Int32 IndexOfText0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom0_2(Char w0, Char w1, Int32 st) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w); }
	Int32 IndexOfAny0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0);Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom0_2(Char w0, Char w1, Int32 st) { String* s = new String(L' ', 0);Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	String* ReplaceText0_2_0(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText0_2_1(Char w0, Char w1, Char r0) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText0_2_2(Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText0_2_3(Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet0_2(Char w0, Char w1) { String* s = new String(L' ', 0);Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet0_2(Char w0, Char w1) { String* s = new String(L' ', 0);Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet0_2(Char w0, Char w1) { String* s = new String(L' ', 0);Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join0_2(Char w0, Char w1, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar0_2(Char w0, Char w1, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Concat7_0(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w, s, w, w, s, w); }
	Int32 IndexOf0(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); return s->IndexOf(w0, st, ct); }
	Int32 IndexOfFrom0(Char w0, Int32 st) { String* s = new String(L' ', 0); return s->IndexOf(w0, st); }
	Int32 IndexOfAll0(Char w0) { String* s = new String(L' ', 0); return s->IndexOf(w0); }
	Boolean EndsWithChar0(Char w0) { String* s = new String(L' ', 0); return s->EndsWith(w0); }
	String* Replace0(Char w0, Char w1) { String* s = new String(L' ', 0); return s->Replace(w0, w1); }
	String* PadLeft0(Char w0, Int32 n) { String* s = new String(L' ', 0); return s->PadLeft(n, w0); }
	String* PadLeftBlank0(Int32 n) { String* s = new String(L' ', 0); return s->PadLeft(n); }
	String* PadRight0(Char w0, Int32 n) { String* s = new String(L' ', 0); return s->PadRight(n, w0); }
	String* PadRightBlank0(Int32 n) { String* s = new String(L' ', 0); return s->PadRight(n); }
	String* Trim0() { String* s = new String(L' ', 0); return s->Trim(); }
	String* TrimStart0() { String* s = new String(L' ', 0); return s->TrimStart(nullptr); }
	String* TrimEnd0() { String* s = new String(L' ', 0); return s->TrimEnd(nullptr); }
	Boolean IsNullOrWhiteSpace0() { String* s = new String(L' ', 0); return String::IsNullOrWhiteSpace(s); }
	String* ToUpper0() { String* s = new String(L' ', 0); return s->ToUpper(); }
	String* ToLower0() { String* s = new String(L' ', 0); return s->ToLower(); }
	String* ToUpperInvariant0() { String* s = new String(L' ', 0); return s->ToUpperInvariant(); }
	String* ToLowerInvariant0() { String* s = new String(L' ', 0); return s->ToLowerInvariant(); }
	Boolean Equals0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->Equals(w); }
	Boolean EqualsObject0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Equals(s, w); }
	Boolean EqualsStaticO0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Equals((Object*) s, w); }
	Boolean Inequality0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::op_Inequality(s, w); }
	Int32 CompareOrdinal0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart0_0(Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Compare(s, w); }
	Int32 CompareIgnoreCase0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Compare(s, w, true); }
	Int32 CompareTo0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->CompareTo(w); }
	Int32 CompareToObject0_0() { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return s->CompareTo((Object*) w); }
	Int32 ComparePart0_0(Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase0_0(Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 0); return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Equals(w); }
	Boolean EqualsObject0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, w); }
	Boolean EqualsStaticO0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals((Object*) s, w); }
	Boolean Inequality0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart0_1(Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, w); }
	Int32 CompareIgnoreCase0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, w, true); }
	Int32 CompareTo0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->CompareTo(w); }
	Int32 CompareToObject0_1(Char w0) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return s->CompareTo((Object*) w); }
	Int32 ComparePart0_1(Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase0_1(Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Equals(w); }
	Boolean EqualsObject0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, w); }
	Boolean EqualsStaticO0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals((Object*) s, w); }
	Boolean Inequality0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart0_2(Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, w); }
	Int32 CompareIgnoreCase0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, w, true); }
	Int32 CompareTo0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->CompareTo(w); }
	Int32 CompareToObject0_2(Char w0, Char w1) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->CompareTo((Object*) w); }
	Int32 ComparePart0_2(Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase0_2(Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 0);String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, i, w, j, ct, true); }
	String* Make1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s; }
	String* MakePart1(Char c0, Int32 st, Int32 ct) { Char t[] = { c0, 0 }; return new String(t, st, ct); }
	String* MakeArray1(Char c0, Int32 st, Int32 ct) { Char t_a[] = { c0, 0 }; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = t_a[i]; return new String(a, st, ct); }
	String* Copy1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return String::Copy(s); }
	Char Chars1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->get_Chars(i); }
	Int32 Length1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->get_Length(); }
	String* Substring1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->Substring(st, ct); }
	String* Remove1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->Remove(st, ct); }
	Array* ToCharArray1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->ToCharArray(st, ct); }
	Array* CopyTo1(Char c0, Char d0, Char d1, Char d2, Char d3, Int32 st, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_d[] = { d0, d1, d2, d3, 0 }; Array* d = new Array(CharType, 4); for (Int32 i = 0; i < 4; ++i) *(Char*) d->Address(i) = t_d[i]; s->CopyTo(st, d, at, ct); return d; }
	String* Insert1_0(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->Insert(at, w); }
	String* Concat1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Concat(s, w); }
	Boolean Contains1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->Contains(w); }
	Boolean StartsWith1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->StartsWith(w); }
	Boolean EndsWith1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->EndsWith(w); }
	Int32 IndexOfText1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom1_0(Char c0, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->IndexOf(w, st); }
	Int32 IndexOfTextAll1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->IndexOf(w); }
	Int32 IndexOfAny1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom1_0(Char c0, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* Insert1_1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Insert(at, w); }
	String* Concat1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Concat(s, w); }
	Boolean Contains1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Contains(w); }
	Boolean StartsWith1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->StartsWith(w); }
	Boolean EndsWith1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->EndsWith(w); }
	Int32 IndexOfText1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom1_1(Char c0, Char w0, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w); }
	Int32 LastIndexOfText1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w); }
	Int32 IndexOfAny1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom1_1(Char c0, Char w0, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText1_1_0(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText1_1_1(Char c0, Char w0, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText1_1_2(Char c0, Char w0, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText1_1_3(Char c0, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join1_1(Char c0, Char w0, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar1_1(Char c0, Char w0, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Insert1_2(Char c0, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Insert(at, w); }
	String* Concat1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w); }
	Boolean Contains1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Contains(w); }
	Boolean StartsWith1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->StartsWith(w); }
	Boolean EndsWith1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->EndsWith(w); }
	Int32 IndexOfText1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom1_2(Char c0, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w); }
	Int32 LastIndexOfText1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w); }
	Int32 IndexOfAny1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom1_2(Char c0, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText1_2_0(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText1_2_1(Char c0, Char w0, Char w1, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText1_2_2(Char c0, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText1_2_3(Char c0, Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join1_2(Char c0, Char w0, Char w1, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar1_2(Char c0, Char w0, Char w1, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Concat7_1(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w, s, w, w, s, w); }
	Int32 IndexOf1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->IndexOf(w0, st, ct); }
	Int32 IndexOfFrom1(Char c0, Char w0, Int32 st) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->IndexOf(w0, st); }
	Int32 IndexOfAll1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->IndexOf(w0); }
	Int32 LastIndexOf1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->LastIndexOf(w0, st, ct); }
	Int32 LastIndexOfAll1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->LastIndexOf(w0); }
	Boolean EndsWithChar1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->EndsWith(w0); }
	String* Replace1(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->Replace(w0, w1); }
	String* PadLeft1(Char c0, Char w0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->PadLeft(n, w0); }
	String* PadLeftBlank1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->PadLeft(n); }
	String* PadRight1(Char c0, Char w0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->PadRight(n, w0); }
	String* PadRightBlank1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->PadRight(n); }
	String* Trim1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->Trim(); }
	String* TrimStart1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->TrimStart(nullptr); }
	String* TrimEnd1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->TrimEnd(nullptr); }
	Boolean IsNullOrWhiteSpace1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return String::IsNullOrWhiteSpace(s); }
	String* ToUpper1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->ToUpper(); }
	String* ToLower1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->ToLower(); }
	String* ToUpperInvariant1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->ToUpperInvariant(); }
	String* ToLowerInvariant1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; return s->ToLowerInvariant(); }
	Boolean Equals1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->Equals(w); }
	Boolean EqualsObject1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Equals(s, w); }
	Boolean EqualsStaticO1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Equals((Object*) s, w); }
	Boolean Inequality1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::op_Inequality(s, w); }
	Int32 CompareOrdinal1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart1_0(Char c0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Compare(s, w); }
	Int32 CompareIgnoreCase1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Compare(s, w, true); }
	Int32 CompareTo1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->CompareTo(w); }
	Int32 CompareToObject1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return s->CompareTo((Object*) w); }
	Int32 ComparePart1_0(Char c0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase1_0(Char c0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 0); return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Equals(w); }
	Boolean EqualsObject1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, w); }
	Boolean EqualsStaticO1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals((Object*) s, w); }
	Boolean Inequality1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart1_1(Char c0, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, w); }
	Int32 CompareIgnoreCase1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, w, true); }
	Int32 CompareTo1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->CompareTo(w); }
	Int32 CompareToObject1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->CompareTo((Object*) w); }
	Int32 ComparePart1_1(Char c0, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase1_1(Char c0, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Equals(w); }
	Boolean EqualsObject1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, w); }
	Boolean EqualsStaticO1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals((Object*) s, w); }
	Boolean Inequality1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart1_2(Char c0, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, w); }
	Int32 CompareIgnoreCase1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, w, true); }
	Int32 CompareTo1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->CompareTo(w); }
	Int32 CompareToObject1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->CompareTo((Object*) w); }
	Int32 ComparePart1_2(Char c0, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase1_2(Char c0, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return s->Equals(w); }
	Boolean EqualsObject1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals(s, w); }
	Boolean EqualsStaticO1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals((Object*) s, w); }
	Boolean Inequality1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal1_3(Char c0, Char w0, Char w1, Char w2) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart1_3(Char c0, Char w0, Char w1, Char w2, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::CompareOrdinal(s, i, w, j, ct); }
	String* Make2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s; }
	String* MakePart2(Char c0, Char c1, Int32 st, Int32 ct) { Char t[] = { c0, c1, 0 }; return new String(t, st, ct); }
	String* MakeArray2(Char c0, Char c1, Int32 st, Int32 ct) { Char t_a[] = { c0, c1, 0 }; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = t_a[i]; return new String(a, st, ct); }
	String* Copy2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return String::Copy(s); }
	Char Chars2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->get_Chars(i); }
	Int32 Length2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->get_Length(); }
	String* Substring2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->Substring(st, ct); }
	String* Remove2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->Remove(st, ct); }
	Array* ToCharArray2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->ToCharArray(st, ct); }
	Array* CopyTo2(Char c0, Char c1, Char d0, Char d1, Char d2, Char d3, Int32 st, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_d[] = { d0, d1, d2, d3, 0 }; Array* d = new Array(CharType, 4); for (Int32 i = 0; i < 4; ++i) *(Char*) d->Address(i) = t_d[i]; s->CopyTo(st, d, at, ct); return d; }
	String* Insert2_0(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->Insert(at, w); }
	String* Concat2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Concat(s, w); }
	Boolean Contains2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->Contains(w); }
	Boolean StartsWith2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->StartsWith(w); }
	Boolean EndsWith2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->EndsWith(w); }
	Int32 IndexOfText2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom2_0(Char c0, Char c1, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->IndexOf(w, st); }
	Int32 IndexOfTextAll2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->IndexOf(w); }
	Int32 IndexOfAny2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom2_0(Char c0, Char c1, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* Insert2_1(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Insert(at, w); }
	String* Concat2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Concat(s, w); }
	Boolean Contains2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Contains(w); }
	Boolean StartsWith2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->StartsWith(w); }
	Boolean EndsWith2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->EndsWith(w); }
	Int32 IndexOfText2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom2_1(Char c0, Char c1, Char w0, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w); }
	Int32 LastIndexOfText2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w); }
	Int32 IndexOfAny2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom2_1(Char c0, Char c1, Char w0, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText2_1_0(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText2_1_1(Char c0, Char c1, Char w0, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText2_1_2(Char c0, Char c1, Char w0, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText2_1_3(Char c0, Char c1, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join2_1(Char c0, Char c1, Char w0, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar2_1(Char c0, Char c1, Char w0, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Insert2_2(Char c0, Char c1, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Insert(at, w); }
	String* Concat2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w); }
	Boolean Contains2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Contains(w); }
	Boolean StartsWith2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->StartsWith(w); }
	Boolean EndsWith2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->EndsWith(w); }
	Int32 IndexOfText2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom2_2(Char c0, Char c1, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w); }
	Int32 LastIndexOfText2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w); }
	Int32 IndexOfAny2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom2_2(Char c0, Char c1, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText2_2_0(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText2_2_1(Char c0, Char c1, Char w0, Char w1, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText2_2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText2_2_3(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join2_2(Char c0, Char c1, Char w0, Char w1, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar2_2(Char c0, Char c1, Char w0, Char w1, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Concat7_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w, s, w, w, s, w); }
	Int32 IndexOf2(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->IndexOf(w0, st, ct); }
	Int32 IndexOfFrom2(Char c0, Char c1, Char w0, Int32 st) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->IndexOf(w0, st); }
	Int32 IndexOfAll2(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->IndexOf(w0); }
	Int32 LastIndexOf2(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->LastIndexOf(w0, st, ct); }
	Int32 LastIndexOfAll2(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->LastIndexOf(w0); }
	Boolean EndsWithChar2(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->EndsWith(w0); }
	String* Replace2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->Replace(w0, w1); }
	String* PadLeft2(Char c0, Char c1, Char w0, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->PadLeft(n, w0); }
	String* PadLeftBlank2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->PadLeft(n); }
	String* PadRight2(Char c0, Char c1, Char w0, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->PadRight(n, w0); }
	String* PadRightBlank2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->PadRight(n); }
	String* Trim2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->Trim(); }
	String* TrimStart2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->TrimStart(nullptr); }
	String* TrimEnd2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->TrimEnd(nullptr); }
	Boolean IsNullOrWhiteSpace2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return String::IsNullOrWhiteSpace(s); }
	String* ToUpper2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->ToUpper(); }
	String* ToLower2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->ToLower(); }
	String* ToUpperInvariant2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->ToUpperInvariant(); }
	String* ToLowerInvariant2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; return s->ToLowerInvariant(); }
	Boolean Equals2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->Equals(w); }
	Boolean EqualsObject2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Equals(s, w); }
	Boolean EqualsStaticO2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Equals((Object*) s, w); }
	Boolean Inequality2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::op_Inequality(s, w); }
	Int32 CompareOrdinal2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart2_0(Char c0, Char c1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Compare(s, w); }
	Int32 CompareIgnoreCase2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Compare(s, w, true); }
	Int32 CompareTo2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->CompareTo(w); }
	Int32 CompareToObject2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return s->CompareTo((Object*) w); }
	Int32 ComparePart2_0(Char c0, Char c1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase2_0(Char c0, Char c1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 0); return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Equals(w); }
	Boolean EqualsObject2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, w); }
	Boolean EqualsStaticO2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals((Object*) s, w); }
	Boolean Inequality2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart2_1(Char c0, Char c1, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, w); }
	Int32 CompareIgnoreCase2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, w, true); }
	Int32 CompareTo2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->CompareTo(w); }
	Int32 CompareToObject2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->CompareTo((Object*) w); }
	Int32 ComparePart2_1(Char c0, Char c1, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase2_1(Char c0, Char c1, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Equals(w); }
	Boolean EqualsObject2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, w); }
	Boolean EqualsStaticO2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals((Object*) s, w); }
	Boolean Inequality2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart2_2(Char c0, Char c1, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, i, w, j, ct); }
	Int32 Compare2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, w); }
	Int32 CompareIgnoreCase2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, w, true); }
	Int32 CompareTo2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->CompareTo(w); }
	Int32 CompareToObject2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->CompareTo((Object*) w); }
	Int32 ComparePart2_2(Char c0, Char c1, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, i, w, j, ct, false); }
	Int32 ComparePartIgnoreCase2_2(Char c0, Char c1, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Compare(s, i, w, j, ct, true); }
	Boolean Equals2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return s->Equals(w); }
	Boolean EqualsObject2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals(s, w); }
	Boolean EqualsStaticO2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals((Object*) s, w); }
	Boolean Inequality2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal2_3(Char c0, Char c1, Char w0, Char w1, Char w2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart2_3(Char c0, Char c1, Char w0, Char w1, Char w2, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::CompareOrdinal(s, i, w, j, ct); }
	String* Make3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s; }
	String* MakePart3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { Char t[] = { c0, c1, c2, 0 }; return new String(t, st, ct); }
	String* MakeArray3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { Char t_a[] = { c0, c1, c2, 0 }; Array* a = new Array(CharType, 3); for (Int32 i = 0; i < 3; ++i) *(Char*) a->Address(i) = t_a[i]; return new String(a, st, ct); }
	String* Copy3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return String::Copy(s); }
	Char Chars3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->get_Chars(i); }
	Int32 Length3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->get_Length(); }
	String* Substring3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->Substring(st, ct); }
	String* Remove3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->Remove(st, ct); }
	Array* ToCharArray3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->ToCharArray(st, ct); }
	Array* CopyTo3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Char d3, Int32 st, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_d[] = { d0, d1, d2, d3, 0 }; Array* d = new Array(CharType, 4); for (Int32 i = 0; i < 4; ++i) *(Char*) d->Address(i) = t_d[i]; s->CopyTo(st, d, at, ct); return d; }
	String* Insert3_0(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->Insert(at, w); }
	String* Concat3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return String::Concat(s, w); }
	Boolean Contains3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->Contains(w); }
	Boolean StartsWith3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->StartsWith(w); }
	Boolean EndsWith3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->EndsWith(w); }
	Int32 IndexOfText3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom3_0(Char c0, Char c1, Char c2, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->IndexOf(w, st); }
	Int32 IndexOfTextAll3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 0); return s->IndexOf(w); }
	Int32 IndexOfAny3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom3_0(Char c0, Char c1, Char c2, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* Insert3_1(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Insert(at, w); }
	String* Concat3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Concat(s, w); }
	Boolean Contains3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Contains(w); }
	Boolean StartsWith3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->StartsWith(w); }
	Boolean EndsWith3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->EndsWith(w); }
	Int32 IndexOfText3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom3_1(Char c0, Char c1, Char c2, Char w0, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w); }
	Int32 LastIndexOfText3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w); }
	Int32 IndexOfAny3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom3_1(Char c0, Char c1, Char c2, Char w0, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText3_1_0(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText3_1_1(Char c0, Char c1, Char c2, Char w0, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText3_1_2(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* ReplaceText3_1_3(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return s->Replace(w, r); }
	String* TrimSet3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join3_1(Char c0, Char c1, Char c2, Char w0, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar3_1(Char c0, Char c1, Char c2, Char w0, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Insert3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Insert(at, w); }
	String* Concat3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w); }
	Boolean Contains3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Contains(w); }
	Boolean StartsWith3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->StartsWith(w); }
	Boolean EndsWith3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->EndsWith(w); }
	Int32 IndexOfText3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w); }
	Int32 LastIndexOfText3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w); }
	Int32 IndexOfAny3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText3_2_0(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText3_2_1(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText3_2_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* TrimSet3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->Trim(w); }
	String* TrimStartSet3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimStart(w); }
	String* TrimEndSet3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->TrimEnd(w); }
	String* Join3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Concat7_3(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w, s, w, w, s, w); }
	Int32 IndexOf3(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->IndexOf(w0, st, ct); }
	Int32 IndexOfFrom3(Char c0, Char c1, Char c2, Char w0, Int32 st) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->IndexOf(w0, st); }
	Int32 IndexOfAll3(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->IndexOf(w0); }
	Int32 LastIndexOf3(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->LastIndexOf(w0, st, ct); }
	Int32 LastIndexOfAll3(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->LastIndexOf(w0); }
	Boolean EndsWithChar3(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->EndsWith(w0); }
	String* Replace3(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->Replace(w0, w1); }
	String* PadLeft3(Char c0, Char c1, Char c2, Char w0, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->PadLeft(n, w0); }
	String* PadLeftBlank3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->PadLeft(n); }
	String* PadRight3(Char c0, Char c1, Char c2, Char w0, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->PadRight(n, w0); }
	String* PadRightBlank3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->PadRight(n); }
	String* Trim3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->Trim(); }
	String* TrimStart3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->TrimStart(nullptr); }
	String* TrimEnd3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->TrimEnd(nullptr); }
	Boolean IsNullOrWhiteSpace3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return String::IsNullOrWhiteSpace(s); }
	String* ToUpper3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->ToUpper(); }
	String* ToLower3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->ToLower(); }
	String* ToUpperInvariant3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->ToUpperInvariant(); }
	String* ToLowerInvariant3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; return s->ToLowerInvariant(); }
	Boolean Equals3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Equals(w); }
	Boolean EqualsObject3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, w); }
	Boolean EqualsStaticO3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Equals((Object*) s, w); }
	Boolean Inequality3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart3_1(Char c0, Char c1, Char c2, Char w0, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::CompareOrdinal(s, i, w, j, ct); }
	Boolean Equals3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Equals(w); }
	Boolean EqualsObject3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, w); }
	Boolean EqualsStaticO3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Equals((Object*) s, w); }
	Boolean Inequality3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::CompareOrdinal(s, i, w, j, ct); }
	Boolean Equals3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return s->Equals(w); }
	Boolean EqualsObject3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; Object* o = w; return s->Equals(o); }
	Boolean EqualsStatic3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals(s, w); }
	Boolean EqualsStaticO3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals(s, (Object*) w); }
	Boolean EqualsStaticP3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::Equals((Object*) s, w); }
	Boolean Inequality3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::op_Inequality(s, w); }
	Int32 CompareOrdinal3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::CompareOrdinal(s, w); }
	Int32 CompareOrdinalPart3_3(Char c0, Char c1, Char c2, Char w0, Char w1, Char w2, Int32 i, Int32 j, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2;String* w = new String(L' ', 3); *w->Address(0) = w0; *w->Address(1) = w1; *w->Address(2) = w2; return String::CompareOrdinal(s, i, w, j, ct); }
	String* Make4(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s; }
	String* MakePart4(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { Char t[] = { c0, c1, c2, c3, 0 }; return new String(t, st, ct); }
	String* MakeArray4(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { Char t_a[] = { c0, c1, c2, c3, 0 }; Array* a = new Array(CharType, 4); for (Int32 i = 0; i < 4; ++i) *(Char*) a->Address(i) = t_a[i]; return new String(a, st, ct); }
	String* Copy4(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return String::Copy(s); }
	Char Chars4(Char c0, Char c1, Char c2, Char c3, Int32 i) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->get_Chars(i); }
	Int32 Length4(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->get_Length(); }
	String* Substring4(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->Substring(st, ct); }
	String* Remove4(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->Remove(st, ct); }
	Array* ToCharArray4(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->ToCharArray(st, ct); }
	Array* CopyTo4(Char c0, Char c1, Char c2, Char c3, Char d0, Char d1, Char d2, Char d3, Int32 st, Int32 at, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_d[] = { d0, d1, d2, d3, 0 }; Array* d = new Array(CharType, 4); for (Int32 i = 0; i < 4; ++i) *(Char*) d->Address(i) = t_d[i]; s->CopyTo(st, d, at, ct); return d; }
	String* Insert4_0(Char c0, Char c1, Char c2, Char c3, Int32 at) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->Insert(at, w); }
	String* Concat4_0(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return String::Concat(s, w); }
	Boolean Contains4_0(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->Contains(w); }
	Boolean StartsWith4_0(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->StartsWith(w); }
	Boolean EndsWith4_0(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->EndsWith(w); }
	Int32 IndexOfText4_0(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom4_0(Char c0, Char c1, Char c2, Char c3, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->IndexOf(w, st); }
	Int32 IndexOfTextAll4_0(Char c0, Char c1, Char c2, Char c3) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 0); return s->IndexOf(w); }
	Int32 IndexOfAny4_0(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom4_0(Char c0, Char c1, Char c2, Char c3, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny4_0(Char c0, Char c1, Char c2, Char c3, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { 0 }; Array* w = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* Insert4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 at) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Insert(at, w); }
	String* Concat4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return String::Concat(s, w); }
	Boolean Contains4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->Contains(w); }
	Boolean StartsWith4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->StartsWith(w); }
	Boolean EndsWith4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->EndsWith(w); }
	Int32 IndexOfText4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->IndexOf(w); }
	Int32 LastIndexOfText4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; return s->LastIndexOf(w); }
	Int32 IndexOfAny4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { w0, 0 }; Array* w = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText4_1_0(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText4_1_1(Char c0, Char c1, Char c2, Char c3, Char w0, Char r0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* ReplaceText4_1_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char r0, Char r1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0;String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return s->Replace(w, r); }
	String* Join4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar4_1(Char c0, Char c1, Char c2, Char c3, Char w0, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray4_1(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 1); *w->Address(0) = w0; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Insert4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Insert(at, w); }
	String* Concat4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w); }
	Boolean Contains4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->Contains(w); }
	Boolean StartsWith4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->StartsWith(w); }
	Boolean EndsWith4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->EndsWith(w); }
	Int32 IndexOfText4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st, ct); }
	Int32 IndexOfTextFrom4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w, st); }
	Int32 IndexOfTextAll4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->IndexOf(w); }
	Int32 LastIndexOfText4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w, st, ct); }
	Int32 LastIndexOfTextAll4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return s->LastIndexOf(w); }
	Int32 IndexOfAny4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st, ct); }
	Int32 IndexOfAnyFrom4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->IndexOfAny(w, st); }
	Int32 LastIndexOfAny4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;Char t_w[] = { w0, w1, 0 }; Array* w = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) w->Address(i) = t_w[i]; return s->LastIndexOfAny(w, st, ct); }
	String* ReplaceText4_2_0(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 0); return s->Replace(w, r); }
	String* ReplaceText4_2_1(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Char r0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* r = new String(L' ', 1); *r->Address(0) = r0; return s->Replace(w, r); }
	String* Join4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Char j0, Char j1, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1;String* j = new String(L' ', 2); *j->Address(0) = j0; *j->Address(1) = j1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j, a, st, ct); }
	String* JoinChar4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1, Char j0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Join(j0, a, st, ct); }
	String* ConcatArray4_2(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* v[] = { s, w, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**) a->Address(i) = v[i]; return String::Concat(a); }
	String* Concat7_4(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return String::Concat(s, w, s, w, w, s, w); }
	Int32 IndexOf4(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->IndexOf(w0, st, ct); }
	Int32 IndexOfFrom4(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->IndexOf(w0, st); }
	Int32 IndexOfAll4(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->IndexOf(w0); }
	Int32 LastIndexOf4(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->LastIndexOf(w0, st, ct); }
	Int32 LastIndexOfAll4(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->LastIndexOf(w0); }
	Boolean EndsWithChar4(Char c0, Char c1, Char c2, Char c3, Char w0) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->EndsWith(w0); }
	String* Replace4(Char c0, Char c1, Char c2, Char c3, Char w0, Char w1) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->Replace(w0, w1); }
	String* PadLeft4(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 n) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->PadLeft(n, w0); }
	String* PadLeftBlank4(Char c0, Char c1, Char c2, Char c3, Int32 n) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->PadLeft(n); }
	String* PadRight4(Char c0, Char c1, Char c2, Char c3, Char w0, Int32 n) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->PadRight(n, w0); }
	String* PadRightBlank4(Char c0, Char c1, Char c2, Char c3, Int32 n) { String* s = new String(L' ', 4); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; *s->Address(3) = c3; return s->PadRight(n); }
	String* Repeat0(Char c0) { return new String(c0, 0); }
	String* Repeat1(Char c0) { return new String(c0, 1); }
	String* Repeat2(Char c0) { return new String(c0, 2); }
	String* Repeat3(Char c0) { return new String(c0, 3); }
	String* Repeat4(Char c0) { return new String(c0, 4); }
	String* Repeat5(Char c0) { return new String(c0, 5); }
	String* LongConcat_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s; }
	String* LongConcat4_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* z = new String(L'z', 20); return String::Concat(s, z, c, s); }
	String* LongConcatArray_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* z = new String(L'z', 20); String* v[] = { s, z, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Concat(a); }
	String* LongJoin_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* z = new String(L'z', 20); String* v[] = { s, c, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(z, a); }
	String* LongCopy_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::Copy(s); }
	String* LongToString_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->ToString(); }
	String* LongInsert_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* z = new String(L'z', 20); return s->Insert(6, z); }
	String* LongInsertEnd_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* z = new String(L'z', 20); return s->Insert(28, z); }
	String* LongRemove_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Remove(1, 25); }
	String* LongRemoveRest_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Remove(9); }
	String* LongSubstring_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Substring(3, 20); }
	String* LongSubstringRest_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Substring(6); }
	String* LongPadLeft_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->PadLeft(56, L'p'); }
	String* LongPadRight_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->PadRight(56, L'p'); }
	String* LongPadBlank_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->PadLeft(33); }
	String* LongUpper_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::Concat(s->Substring(0, 5), s->Substring(8))->ToUpper(); }
	String* LongLower_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::Concat(s->Substring(0, 5), s->Substring(8))->ToUpper()->ToLower(); }
	String* LongReplace_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Replace(L'y', L'w'); }
	String* LongReplaceText_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Replace(new String(L"y"), new String(L"abc")); }
	String* LongReplaceDrop_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Replace(new String(L"x"), new String(L"")); }
	String* LongReplacePairs_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Replace(new String(L"xx"), new String(L"q")); }
	String* LongTrim_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::Concat(new String(L' ', 5), s, new String(L' ', 20))->Trim(); }
	String* LongTrimSet_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'x'; return s->Trim(a); }
	Char LongChars_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->get_Chars(7); }
	Char LongCharsLast_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->get_Chars(27); }
	Char LongCharsPast_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->get_Chars(28); }
	Int32 LongIndexOf_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->IndexOf(L'y'); }
	Int32 LongIndexOfFrom_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->IndexOf(L'y', 27); }
	Int32 LongIndexOfText_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->IndexOf(new String(L"yy")); }
	Int32 LongIndexOfNot_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->IndexOf(new String(L"yx")); }
	Int32 LongIndexOfAny_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'z'; return s->IndexOfAny(a); }
	Int32 LongLastIndexOf_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->LastIndexOf(L'x'); }
	Int32 LongLastIndexOfText_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->LastIndexOf(new String(L"xx")); }
	Boolean LongContains_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Contains(String::Concat(new String(L'y', 19), new String(L"x"))); }
	Boolean LongStartsWith_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->StartsWith(new String(L'x', 5)); }
	Boolean LongStartsWithNot_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->StartsWith(new String(L'x', 6)); }
	Boolean LongEndsWith_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->EndsWith(new String(L'y', 20)); }
	Boolean LongEndsWithNot_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->EndsWith(new String(L'y', 21)); }
	Array* LongToCharArray_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->ToCharArray(); }
	String* LongFromArray_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return new String(s->ToCharArray()); }
	String* LongFromArrayPart_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return new String(s->ToCharArray(), 2, 20); }
	Array* LongCopyTo_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); Array* a = String::Concat(s, s)->ToCharArray(); s->CopyTo(4, a, 2, 20); return a; }
	Int32 LongOrderLast_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::CompareOrdinal(s, s->Remove(27)->Insert(27, new String(L"z"))); }
	Int32 LongOrderShort_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::CompareOrdinal(s, s->Remove(27)); }
	Boolean LongEqualsLast_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Equals(s->Remove(27)->Insert(27, new String(L"z"))); }
	Boolean LongEqualsShort_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return s->Equals(s->Remove(27)); }
	Boolean LongEqualsCopy_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::Equals(new String(L'x', 28), String::Concat(new String(L'x', 5), new String(L'x', 23))); }
	Boolean LongBlank_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::IsNullOrWhiteSpace(String::Concat(new String(L' ', 28), new String(L'q', 1))); }
	Boolean LongBlankAll_5_20(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); return String::IsNullOrWhiteSpace(new String(L' ', 28)); }
	String* LongEndConcat_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(t, c, t); }
	String* LongEndInsert_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(6, c); }
	String* LongEndInsertFirst_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(0, c); }
	String* LongEndRemove_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(1, 6); }
	String* LongEndRemoveFirst_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(0, 1); }
	String* LongEndSubstring_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(6, 30); }
	String* LongEndSubstringRest_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(1); }
	String* LongEndPadLeft_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadLeft(94, L'p'); }
	String* LongEndPadRight_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadRight(94, L'p'); }
	String* LongEndReplace_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(L'y', L'w'); }
	String* LongEndReplaceText_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"y"), new String(L"abc")); }
	String* LongEndReplaceDrop_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"x"), new String(L"")); }
	String* LongEndReplacePairs_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"xx"), new String(L"q")); }
	String* LongEndTrim_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(new String(L' ', 5), t, new String(L'q', 1), new String(L' ', 20))->Trim(); }
	Array* LongEndToCharArray_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(); }
	Array* LongEndToCharArrayPart_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(6, 30); }
	String* LongEndFromArrayPart_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return new String(t->ToCharArray(), 6, 30); }
	Array* LongEndCopyTo_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); Array* a = t->ToCharArray(); t->CopyTo(29, a, 1, 18); return a; }
	String* LongEndJoin_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); String* v[] = { c, t, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(L',', a); }
	Char LongEndChars_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->get_Chars(46); }
	Boolean LongEndStartsWith_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->StartsWith(t->Substring(0, 46)); }
	Boolean LongEndEndsWith_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->EndsWith(t->Substring(1)); }
	String* LongEndBuilder_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); StringBuilder* b = new StringBuilder(t); return b->ToString(); }
	Boolean LongEndEqualsLast_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 46)->Insert(46, new String(e0, 1))); }
	Boolean LongEndEqualsNext_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 45)->Insert(45, String::Concat(new String(L'q', 1), new String(e1, 1)))); }
	Boolean LongEndEqualsAll_5_20(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 5), c, new String(L'y', 20)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 1)->Insert(1, t->Substring(1))); }
	String* LongConcat_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s; }
	String* LongConcat4_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* z = new String(L'z', 300); return String::Concat(s, z, c, s); }
	String* LongConcatArray_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* z = new String(L'z', 300); String* v[] = { s, z, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Concat(a); }
	String* LongJoin_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* z = new String(L'z', 300); String* v[] = { s, c, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(z, a); }
	String* LongCopy_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::Copy(s); }
	String* LongToString_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->ToString(); }
	String* LongInsert_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* z = new String(L'z', 300); return s->Insert(61, z); }
	String* LongInsertEnd_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* z = new String(L'z', 300); return s->Insert(363, z); }
	String* LongRemove_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Remove(56, 305); }
	String* LongRemoveRest_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Remove(64); }
	String* LongSubstring_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Substring(58, 300); }
	String* LongSubstringRest_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Substring(61); }
	String* LongPadLeft_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->PadLeft(726, L'p'); }
	String* LongPadRight_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->PadRight(726, L'p'); }
	String* LongPadBlank_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->PadLeft(423); }
	String* LongUpper_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::Concat(s->Substring(0, 60), s->Substring(63))->ToUpper(); }
	String* LongLower_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::Concat(s->Substring(0, 60), s->Substring(63))->ToUpper()->ToLower(); }
	String* LongReplace_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Replace(L'y', L'w'); }
	String* LongReplaceText_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Replace(new String(L"y"), new String(L"abc")); }
	String* LongReplaceDrop_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Replace(new String(L"x"), new String(L"")); }
	String* LongReplacePairs_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Replace(new String(L"xx"), new String(L"q")); }
	String* LongTrim_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::Concat(new String(L' ', 60), s, new String(L' ', 300))->Trim(); }
	String* LongTrimSet_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'x'; return s->Trim(a); }
	Char LongChars_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->get_Chars(62); }
	Char LongCharsLast_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->get_Chars(362); }
	Char LongCharsPast_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->get_Chars(363); }
	Int32 LongIndexOf_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->IndexOf(L'y'); }
	Int32 LongIndexOfFrom_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->IndexOf(L'y', 362); }
	Int32 LongIndexOfText_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->IndexOf(new String(L"yy")); }
	Int32 LongIndexOfNot_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->IndexOf(new String(L"yx")); }
	Int32 LongIndexOfAny_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'z'; return s->IndexOfAny(a); }
	Int32 LongLastIndexOf_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->LastIndexOf(L'x'); }
	Int32 LongLastIndexOfText_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->LastIndexOf(new String(L"xx")); }
	Boolean LongContains_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Contains(String::Concat(new String(L'y', 299), new String(L"x"))); }
	Boolean LongStartsWith_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->StartsWith(new String(L'x', 60)); }
	Boolean LongStartsWithNot_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->StartsWith(new String(L'x', 61)); }
	Boolean LongEndsWith_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->EndsWith(new String(L'y', 300)); }
	Boolean LongEndsWithNot_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->EndsWith(new String(L'y', 301)); }
	Array* LongToCharArray_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->ToCharArray(); }
	String* LongFromArray_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return new String(s->ToCharArray()); }
	String* LongFromArrayPart_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return new String(s->ToCharArray(), 57, 300); }
	Array* LongCopyTo_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); Array* a = String::Concat(s, s)->ToCharArray(); s->CopyTo(59, a, 2, 300); return a; }
	Int32 LongOrderLast_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::CompareOrdinal(s, s->Remove(362)->Insert(362, new String(L"z"))); }
	Int32 LongOrderShort_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::CompareOrdinal(s, s->Remove(362)); }
	Boolean LongEqualsLast_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Equals(s->Remove(362)->Insert(362, new String(L"z"))); }
	Boolean LongEqualsShort_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return s->Equals(s->Remove(362)); }
	Boolean LongEqualsCopy_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::Equals(new String(L'x', 363), String::Concat(new String(L'x', 60), new String(L'x', 303))); }
	Boolean LongBlank_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::IsNullOrWhiteSpace(String::Concat(new String(L' ', 363), new String(L'q', 1))); }
	Boolean LongBlankAll_60_300(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); return String::IsNullOrWhiteSpace(new String(L' ', 363)); }
	String* LongEndConcat_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(t, c, t); }
	String* LongEndInsert_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(61, c); }
	String* LongEndInsertFirst_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(0, c); }
	String* LongEndRemove_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(56, 6); }
	String* LongEndRemoveFirst_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(0, 1); }
	String* LongEndSubstring_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(61, 310); }
	String* LongEndSubstringRest_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(1); }
	String* LongEndPadLeft_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadLeft(764, L'p'); }
	String* LongEndPadRight_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadRight(764, L'p'); }
	String* LongEndReplace_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(L'y', L'w'); }
	String* LongEndReplaceText_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"y"), new String(L"abc")); }
	String* LongEndReplaceDrop_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"x"), new String(L"")); }
	String* LongEndReplacePairs_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"xx"), new String(L"q")); }
	String* LongEndTrim_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(new String(L' ', 60), t, new String(L'q', 1), new String(L' ', 300))->Trim(); }
	Array* LongEndToCharArray_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(); }
	Array* LongEndToCharArrayPart_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(61, 310); }
	String* LongEndFromArrayPart_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return new String(t->ToCharArray(), 61, 310); }
	Array* LongEndCopyTo_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); Array* a = t->ToCharArray(); t->CopyTo(364, a, 1, 18); return a; }
	String* LongEndJoin_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); String* v[] = { c, t, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(L',', a); }
	Char LongEndChars_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->get_Chars(381); }
	Boolean LongEndStartsWith_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->StartsWith(t->Substring(0, 381)); }
	Boolean LongEndEndsWith_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->EndsWith(t->Substring(1)); }
	String* LongEndBuilder_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); StringBuilder* b = new StringBuilder(t); return b->ToString(); }
	Boolean LongEndEqualsLast_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 381)->Insert(381, new String(e0, 1))); }
	Boolean LongEndEqualsNext_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 380)->Insert(380, String::Concat(new String(L'q', 1), new String(e1, 1)))); }
	Boolean LongEndEqualsAll_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 60), c, new String(L'y', 300)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 1)->Insert(1, t->Substring(1))); }
	String* LongConcat_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s; }
	String* LongConcat4_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* z = new String(L'z', 4); return String::Concat(s, z, c, s); }
	String* LongConcatArray_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* z = new String(L'z', 4); String* v[] = { s, z, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Concat(a); }
	String* LongJoin_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* z = new String(L'z', 4); String* v[] = { s, c, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(z, a); }
	String* LongCopy_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::Copy(s); }
	String* LongToString_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->ToString(); }
	String* LongInsert_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* z = new String(L'z', 4); return s->Insert(127, z); }
	String* LongInsertEnd_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* z = new String(L'z', 4); return s->Insert(133, z); }
	String* LongRemove_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Remove(122, 9); }
	String* LongRemoveRest_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Remove(130); }
	String* LongSubstring_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Substring(124, 4); }
	String* LongSubstringRest_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Substring(127); }
	String* LongPadLeft_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->PadLeft(266, L'p'); }
	String* LongPadRight_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->PadRight(266, L'p'); }
	String* LongPadBlank_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->PadLeft(259); }
	String* LongUpper_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::Concat(s->Substring(0, 126), s->Substring(129))->ToUpper(); }
	String* LongLower_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::Concat(s->Substring(0, 126), s->Substring(129))->ToUpper()->ToLower(); }
	String* LongReplace_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Replace(L'y', L'w'); }
	String* LongReplaceText_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Replace(new String(L"y"), new String(L"abc")); }
	String* LongReplaceDrop_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Replace(new String(L"x"), new String(L"")); }
	String* LongReplacePairs_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Replace(new String(L"xx"), new String(L"q")); }
	String* LongTrim_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::Concat(new String(L' ', 126), s, new String(L' ', 4))->Trim(); }
	String* LongTrimSet_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'x'; return s->Trim(a); }
	Char LongChars_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->get_Chars(128); }
	Char LongCharsLast_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->get_Chars(132); }
	Char LongCharsPast_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->get_Chars(133); }
	Int32 LongIndexOf_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->IndexOf(L'y'); }
	Int32 LongIndexOfFrom_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->IndexOf(L'y', 132); }
	Int32 LongIndexOfText_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->IndexOf(new String(L"yy")); }
	Int32 LongIndexOfNot_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->IndexOf(new String(L"yx")); }
	Int32 LongIndexOfAny_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'z'; return s->IndexOfAny(a); }
	Int32 LongLastIndexOf_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->LastIndexOf(L'x'); }
	Int32 LongLastIndexOfText_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->LastIndexOf(new String(L"xx")); }
	Boolean LongContains_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Contains(String::Concat(new String(L'y', 3), new String(L"x"))); }
	Boolean LongStartsWith_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->StartsWith(new String(L'x', 126)); }
	Boolean LongStartsWithNot_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->StartsWith(new String(L'x', 127)); }
	Boolean LongEndsWith_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->EndsWith(new String(L'y', 4)); }
	Boolean LongEndsWithNot_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->EndsWith(new String(L'y', 5)); }
	Array* LongToCharArray_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->ToCharArray(); }
	String* LongFromArray_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return new String(s->ToCharArray()); }
	String* LongFromArrayPart_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return new String(s->ToCharArray(), 123, 4); }
	Array* LongCopyTo_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); Array* a = String::Concat(s, s)->ToCharArray(); s->CopyTo(125, a, 2, 4); return a; }
	Int32 LongOrderLast_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::CompareOrdinal(s, s->Remove(132)->Insert(132, new String(L"z"))); }
	Int32 LongOrderShort_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::CompareOrdinal(s, s->Remove(132)); }
	Boolean LongEqualsLast_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Equals(s->Remove(132)->Insert(132, new String(L"z"))); }
	Boolean LongEqualsShort_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return s->Equals(s->Remove(132)); }
	Boolean LongEqualsCopy_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::Equals(new String(L'x', 133), String::Concat(new String(L'x', 126), new String(L'x', 7))); }
	Boolean LongBlank_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::IsNullOrWhiteSpace(String::Concat(new String(L' ', 133), new String(L'q', 1))); }
	Boolean LongBlankAll_126_4(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); return String::IsNullOrWhiteSpace(new String(L' ', 133)); }
	String* LongEndConcat_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(t, c, t); }
	String* LongEndInsert_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(127, c); }
	String* LongEndInsertFirst_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(0, c); }
	String* LongEndRemove_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(122, 6); }
	String* LongEndRemoveFirst_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(0, 1); }
	String* LongEndSubstring_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(127, 14); }
	String* LongEndSubstringRest_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(1); }
	String* LongEndPadLeft_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadLeft(304, L'p'); }
	String* LongEndPadRight_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadRight(304, L'p'); }
	String* LongEndReplace_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(L'y', L'w'); }
	String* LongEndReplaceText_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"y"), new String(L"abc")); }
	String* LongEndReplaceDrop_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"x"), new String(L"")); }
	String* LongEndReplacePairs_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"xx"), new String(L"q")); }
	String* LongEndTrim_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(new String(L' ', 126), t, new String(L'q', 1), new String(L' ', 4))->Trim(); }
	Array* LongEndToCharArray_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(); }
	Array* LongEndToCharArrayPart_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(127, 14); }
	String* LongEndFromArrayPart_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return new String(t->ToCharArray(), 127, 14); }
	Array* LongEndCopyTo_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); Array* a = t->ToCharArray(); t->CopyTo(134, a, 1, 18); return a; }
	String* LongEndJoin_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); String* v[] = { c, t, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(L',', a); }
	Char LongEndChars_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->get_Chars(151); }
	Boolean LongEndStartsWith_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->StartsWith(t->Substring(0, 151)); }
	Boolean LongEndEndsWith_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->EndsWith(t->Substring(1)); }
	String* LongEndBuilder_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); StringBuilder* b = new StringBuilder(t); return b->ToString(); }
	Boolean LongEndEqualsLast_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 151)->Insert(151, new String(e0, 1))); }
	Boolean LongEndEqualsNext_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 150)->Insert(150, String::Concat(new String(L'q', 1), new String(e1, 1)))); }
	Boolean LongEndEqualsAll_126_4(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 126), c, new String(L'y', 4)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 1)->Insert(1, t->Substring(1))); }
	String* LongConcat_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s; }
	String* LongConcat4_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* z = new String(L'z', 129); return String::Concat(s, z, c, s); }
	String* LongConcatArray_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* z = new String(L'z', 129); String* v[] = { s, z, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Concat(a); }
	String* LongJoin_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* z = new String(L'z', 129); String* v[] = { s, c, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(z, a); }
	String* LongCopy_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::Copy(s); }
	String* LongToString_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->ToString(); }
	String* LongInsert_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* z = new String(L'z', 129); return s->Insert(128, z); }
	String* LongInsertEnd_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* z = new String(L'z', 129); return s->Insert(259, z); }
	String* LongRemove_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Remove(123, 134); }
	String* LongRemoveRest_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Remove(131); }
	String* LongSubstring_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Substring(125, 129); }
	String* LongSubstringRest_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Substring(128); }
	String* LongPadLeft_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->PadLeft(518, L'p'); }
	String* LongPadRight_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->PadRight(518, L'p'); }
	String* LongPadBlank_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->PadLeft(386); }
	String* LongUpper_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::Concat(s->Substring(0, 127), s->Substring(130))->ToUpper(); }
	String* LongLower_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::Concat(s->Substring(0, 127), s->Substring(130))->ToUpper()->ToLower(); }
	String* LongReplace_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Replace(L'y', L'w'); }
	String* LongReplaceText_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Replace(new String(L"y"), new String(L"abc")); }
	String* LongReplaceDrop_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Replace(new String(L"x"), new String(L"")); }
	String* LongReplacePairs_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Replace(new String(L"xx"), new String(L"q")); }
	String* LongTrim_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::Concat(new String(L' ', 127), s, new String(L' ', 129))->Trim(); }
	String* LongTrimSet_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'x'; return s->Trim(a); }
	Char LongChars_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->get_Chars(129); }
	Char LongCharsLast_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->get_Chars(258); }
	Char LongCharsPast_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->get_Chars(259); }
	Int32 LongIndexOf_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->IndexOf(L'y'); }
	Int32 LongIndexOfFrom_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->IndexOf(L'y', 258); }
	Int32 LongIndexOfText_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->IndexOf(new String(L"yy")); }
	Int32 LongIndexOfNot_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->IndexOf(new String(L"yx")); }
	Int32 LongIndexOfAny_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'z'; return s->IndexOfAny(a); }
	Int32 LongLastIndexOf_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->LastIndexOf(L'x'); }
	Int32 LongLastIndexOfText_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->LastIndexOf(new String(L"xx")); }
	Boolean LongContains_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Contains(String::Concat(new String(L'y', 128), new String(L"x"))); }
	Boolean LongStartsWith_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->StartsWith(new String(L'x', 127)); }
	Boolean LongStartsWithNot_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->StartsWith(new String(L'x', 128)); }
	Boolean LongEndsWith_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->EndsWith(new String(L'y', 129)); }
	Boolean LongEndsWithNot_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->EndsWith(new String(L'y', 130)); }
	Array* LongToCharArray_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->ToCharArray(); }
	String* LongFromArray_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return new String(s->ToCharArray()); }
	String* LongFromArrayPart_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return new String(s->ToCharArray(), 124, 129); }
	Array* LongCopyTo_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); Array* a = String::Concat(s, s)->ToCharArray(); s->CopyTo(126, a, 2, 129); return a; }
	Int32 LongOrderLast_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::CompareOrdinal(s, s->Remove(258)->Insert(258, new String(L"z"))); }
	Int32 LongOrderShort_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::CompareOrdinal(s, s->Remove(258)); }
	Boolean LongEqualsLast_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Equals(s->Remove(258)->Insert(258, new String(L"z"))); }
	Boolean LongEqualsShort_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return s->Equals(s->Remove(258)); }
	Boolean LongEqualsCopy_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::Equals(new String(L'x', 259), String::Concat(new String(L'x', 127), new String(L'x', 132))); }
	Boolean LongBlank_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::IsNullOrWhiteSpace(String::Concat(new String(L' ', 259), new String(L'q', 1))); }
	Boolean LongBlankAll_127_129(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); return String::IsNullOrWhiteSpace(new String(L' ', 259)); }
	String* LongEndConcat_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(t, c, t); }
	String* LongEndInsert_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(128, c); }
	String* LongEndInsertFirst_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(0, c); }
	String* LongEndRemove_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(123, 6); }
	String* LongEndRemoveFirst_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(0, 1); }
	String* LongEndSubstring_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(128, 139); }
	String* LongEndSubstringRest_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(1); }
	String* LongEndPadLeft_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadLeft(556, L'p'); }
	String* LongEndPadRight_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadRight(556, L'p'); }
	String* LongEndReplace_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(L'y', L'w'); }
	String* LongEndReplaceText_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"y"), new String(L"abc")); }
	String* LongEndReplaceDrop_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"x"), new String(L"")); }
	String* LongEndReplacePairs_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"xx"), new String(L"q")); }
	String* LongEndTrim_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(new String(L' ', 127), t, new String(L'q', 1), new String(L' ', 129))->Trim(); }
	Array* LongEndToCharArray_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(); }
	Array* LongEndToCharArrayPart_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(128, 139); }
	String* LongEndFromArrayPart_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return new String(t->ToCharArray(), 128, 139); }
	Array* LongEndCopyTo_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); Array* a = t->ToCharArray(); t->CopyTo(260, a, 1, 18); return a; }
	String* LongEndJoin_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); String* v[] = { c, t, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(L',', a); }
	Char LongEndChars_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->get_Chars(277); }
	Boolean LongEndStartsWith_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->StartsWith(t->Substring(0, 277)); }
	Boolean LongEndEndsWith_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->EndsWith(t->Substring(1)); }
	String* LongEndBuilder_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); StringBuilder* b = new StringBuilder(t); return b->ToString(); }
	Boolean LongEndEqualsLast_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 277)->Insert(277, new String(e0, 1))); }
	Boolean LongEndEqualsNext_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 276)->Insert(276, String::Concat(new String(L'q', 1), new String(e1, 1)))); }
	Boolean LongEndEqualsAll_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 127), c, new String(L'y', 129)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 1)->Insert(1, t->Substring(1))); }
	String* LongConcat_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s; }
	String* LongConcat4_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* z = new String(L'z', 257); return String::Concat(s, z, c, s); }
	String* LongConcatArray_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* z = new String(L'z', 257); String* v[] = { s, z, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Concat(a); }
	String* LongJoin_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* z = new String(L'z', 257); String* v[] = { s, c, s }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(z, a); }
	String* LongCopy_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::Copy(s); }
	String* LongToString_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->ToString(); }
	String* LongInsert_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* z = new String(L'z', 257); return s->Insert(255, z); }
	String* LongInsertEnd_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* z = new String(L'z', 257); return s->Insert(514, z); }
	String* LongRemove_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Remove(250, 262); }
	String* LongRemoveRest_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Remove(258); }
	String* LongSubstring_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Substring(252, 257); }
	String* LongSubstringRest_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Substring(255); }
	String* LongPadLeft_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->PadLeft(1028, L'p'); }
	String* LongPadRight_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->PadRight(1028, L'p'); }
	String* LongPadBlank_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->PadLeft(768); }
	String* LongUpper_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::Concat(s->Substring(0, 254), s->Substring(257))->ToUpper(); }
	String* LongLower_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::Concat(s->Substring(0, 254), s->Substring(257))->ToUpper()->ToLower(); }
	String* LongReplace_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Replace(L'y', L'w'); }
	String* LongReplaceText_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Replace(new String(L"y"), new String(L"abc")); }
	String* LongReplaceDrop_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Replace(new String(L"x"), new String(L"")); }
	String* LongReplacePairs_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Replace(new String(L"xx"), new String(L"q")); }
	String* LongTrim_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::Concat(new String(L' ', 254), s, new String(L' ', 257))->Trim(); }
	String* LongTrimSet_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'x'; return s->Trim(a); }
	Char LongChars_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->get_Chars(256); }
	Char LongCharsLast_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->get_Chars(513); }
	Char LongCharsPast_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->get_Chars(514); }
	Int32 LongIndexOf_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->IndexOf(L'y'); }
	Int32 LongIndexOfFrom_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->IndexOf(L'y', 513); }
	Int32 LongIndexOfText_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->IndexOf(new String(L"yy")); }
	Int32 LongIndexOfNot_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->IndexOf(new String(L"yx")); }
	Int32 LongIndexOfAny_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); Array* a = new Array(CharType, 2); *(Char*)a->Address(0) = L'y'; *(Char*)a->Address(1) = L'z'; return s->IndexOfAny(a); }
	Int32 LongLastIndexOf_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->LastIndexOf(L'x'); }
	Int32 LongLastIndexOfText_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->LastIndexOf(new String(L"xx")); }
	Boolean LongContains_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Contains(String::Concat(new String(L'y', 256), new String(L"x"))); }
	Boolean LongStartsWith_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->StartsWith(new String(L'x', 254)); }
	Boolean LongStartsWithNot_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->StartsWith(new String(L'x', 255)); }
	Boolean LongEndsWith_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->EndsWith(new String(L'y', 257)); }
	Boolean LongEndsWithNot_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->EndsWith(new String(L'y', 258)); }
	Array* LongToCharArray_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->ToCharArray(); }
	String* LongFromArray_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return new String(s->ToCharArray()); }
	String* LongFromArrayPart_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return new String(s->ToCharArray(), 251, 257); }
	Array* LongCopyTo_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); Array* a = String::Concat(s, s)->ToCharArray(); s->CopyTo(253, a, 2, 257); return a; }
	Int32 LongOrderLast_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::CompareOrdinal(s, s->Remove(513)->Insert(513, new String(L"z"))); }
	Int32 LongOrderShort_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::CompareOrdinal(s, s->Remove(513)); }
	Boolean LongEqualsLast_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Equals(s->Remove(513)->Insert(513, new String(L"z"))); }
	Boolean LongEqualsShort_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return s->Equals(s->Remove(513)); }
	Boolean LongEqualsCopy_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::Equals(new String(L'x', 514), String::Concat(new String(L'x', 254), new String(L'x', 260))); }
	Boolean LongBlank_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::IsNullOrWhiteSpace(String::Concat(new String(L' ', 514), new String(L'q', 1))); }
	Boolean LongBlankAll_254_257(Char c0, Char c1, Char c2) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); return String::IsNullOrWhiteSpace(new String(L' ', 514)); }
	String* LongEndConcat_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(t, c, t); }
	String* LongEndInsert_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(255, c); }
	String* LongEndInsertFirst_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Insert(0, c); }
	String* LongEndRemove_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(250, 6); }
	String* LongEndRemoveFirst_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Remove(0, 1); }
	String* LongEndSubstring_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(255, 267); }
	String* LongEndSubstringRest_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Substring(1); }
	String* LongEndPadLeft_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadLeft(1066, L'p'); }
	String* LongEndPadRight_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->PadRight(1066, L'p'); }
	String* LongEndReplace_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(L'y', L'w'); }
	String* LongEndReplaceText_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"y"), new String(L"abc")); }
	String* LongEndReplaceDrop_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"x"), new String(L"")); }
	String* LongEndReplacePairs_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Replace(new String(L"xx"), new String(L"q")); }
	String* LongEndTrim_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return String::Concat(new String(L' ', 254), t, new String(L'q', 1), new String(L' ', 257))->Trim(); }
	Array* LongEndToCharArray_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(); }
	Array* LongEndToCharArrayPart_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->ToCharArray(255, 267); }
	String* LongEndFromArrayPart_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return new String(t->ToCharArray(), 255, 267); }
	Array* LongEndCopyTo_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); Array* a = t->ToCharArray(); t->CopyTo(515, a, 1, 18); return a; }
	String* LongEndJoin_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); String* v[] = { c, t, c }; Array* a = new Array(StringType, 3); for (Int32 i = 0; i < 3; ++i) *(String**)a->Address(i) = v[i]; return String::Join(L',', a); }
	Char LongEndChars_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->get_Chars(532); }
	Boolean LongEndStartsWith_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->StartsWith(t->Substring(0, 532)); }
	Boolean LongEndEndsWith_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->EndsWith(t->Substring(1)); }
	String* LongEndBuilder_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); StringBuilder* b = new StringBuilder(t); return b->ToString(); }
	Boolean LongEndEqualsLast_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 532)->Insert(532, new String(e0, 1))); }
	Boolean LongEndEqualsNext_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 531)->Insert(531, String::Concat(new String(L'q', 1), new String(e1, 1)))); }
	Boolean LongEndEqualsAll_254_257(Char c0, Char c1, Char c2, Char e0, Char e1) { String* c = new String(L' ', 3); *c->Address(0) = c0; *c->Address(1) = c1; *c->Address(2) = c2; String* s = String::Concat(new String(L'x', 254), c, new String(L'y', 257)); String* t = String::Concat(s, new String(e0, 1), new String(L'z', 17), new String(e1, 1)); return t->Equals(t->Substring(0, 1)->Insert(1, t->Substring(1))); }
}
