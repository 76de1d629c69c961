// Written by gen_text.py. Never executed: analysed together with the library by absint against spec/text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	String* BToString0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->ToString(); }
	String* BToStringPart0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->ToString(st, ct); }
	Char BChars0(Int32 i) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->get_Chars(i); }
	StringBuilder* BSetChars0(Char w0, Int32 i) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLength0(Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwice0(Int32 n, Int32 m) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClear0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Clear(); }
	StringBuilder* BCapacity0(Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendChar0(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(w0); }
	StringBuilder* BAppendRepeat0(Char w0, Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(w0, n); }
	StringBuilder* BAppendBoolean0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLine0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->AppendLine(); }
	StringBuilder* BAppendSByte0(SByte v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertSByte0(SByte v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendByte0(Byte v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertByte0(Byte v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt160(Int16 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt160(Int16 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt160(UInt16 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt160(UInt16 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt320(Int32 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt320(Int32 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt320(UInt32 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt320(UInt32 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt640(Int64 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt640(Int64 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt640(UInt64 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt640(UInt64 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BInsertBoolean0(Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, true); }
	StringBuilder* BInsertChar0(Char w0, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Insert(at, w0); }
	StringBuilder* BRemove0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtend0(Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplace0(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1); }
	StringBuilder* BReplacePart0(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppend0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObject0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendChars0_0(Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray0_0(Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert0_0(Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject0_0(Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEquals0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppend0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObject0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendChars0_1(Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray0_1(Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert0_1(Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject0_1(Char w0, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText00_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart00_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText10_1(Char w0, Char r0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart10_1(Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText20_1(Char w0, Char r0, Char r1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart20_1(Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText30_1(Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppend0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObject0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendChars0_2(Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray0_2(Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert0_2(Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject0_2(Char w0, Char w1, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText00_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart00_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText10_2(Char w0, Char w1, Char r0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart10_2(Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText20_2(Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart20_2(Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText30_2(Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	String* BToStringFull0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(); }
	String* BToStringPartFull0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(st, ct); }
	Char BCharsFull0(Int32 i) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->get_Chars(i); }
	StringBuilder* BSetCharsFull0(Char w0, Int32 i) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthFull0(Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceFull0(Int32 n, Int32 m) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearFull0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Clear(); }
	StringBuilder* BCapacityFull0(Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharFull0(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0); }
	StringBuilder* BAppendRepeatFull0(Char w0, Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanFull0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineFull0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->AppendLine(); }
	StringBuilder* BAppendSByteFull0(SByte v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertSByteFull0(SByte v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendByteFull0(Byte v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertByteFull0(Byte v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Full0(Int16 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt16Full0(Int16 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Full0(UInt16 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt16Full0(UInt16 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Full0(Int32 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt32Full0(Int32 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Full0(UInt32 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt32Full0(UInt32 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Full0(Int64 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt64Full0(Int64 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Full0(UInt64 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt64Full0(UInt64 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanFull0(Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, true); }
	StringBuilder* BInsertCharFull0(Char w0, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, w0); }
	StringBuilder* BRemoveFull0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendFull0(Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceFull0(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartFull0(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendFull0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectFull0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull0_0(Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull0_0(Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull0_0(Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull0_0(Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendFull0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectFull0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull0_1(Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull0_1(Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull0_1(Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull0_1(Char w0, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full0_1(Char w0, Char r0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full0_1(Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full0_1(Char w0, Char r0, Char r1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full0_1(Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Full0_1(Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppendFull0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectFull0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull0_2(Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull0_2(Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull0_2(Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull0_2(Char w0, Char w1, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full0_2(Char w0, Char w1, Char r0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full0_2(Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full0_2(Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full0_2(Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Full0_2(Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	String* BToStringBig0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(); }
	String* BToStringPartBig0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(st, ct); }
	Char BCharsBig0(Int32 i) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->get_Chars(i); }
	StringBuilder* BSetCharsBig0(Char w0, Int32 i) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthBig0(Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceBig0(Int32 n, Int32 m) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearBig0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Clear(); }
	StringBuilder* BCapacityBig0(Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharBig0(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0); }
	StringBuilder* BAppendRepeatBig0(Char w0, Int32 n) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanBig0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineBig0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->AppendLine(); }
	StringBuilder* BAppendSByteBig0(SByte v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertSByteBig0(SByte v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendByteBig0(Byte v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertByteBig0(Byte v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Big0(Int16 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt16Big0(Int16 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Big0(UInt16 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt16Big0(UInt16 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Big0(Int32 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt32Big0(Int32 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Big0(UInt32 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt32Big0(UInt32 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Big0(Int64 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt64Big0(Int64 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Big0(UInt64 v) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt64Big0(UInt64 v, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanBig0(Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, true); }
	StringBuilder* BInsertCharBig0(Char w0, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, w0); }
	StringBuilder* BRemoveBig0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendBig0(Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceBig0(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartBig0(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendBig0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectBig0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig0_0(Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig0_0(Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig0_0(Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig0_0(Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig0_0(Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig0_0() { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendBig0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectBig0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig0_1(Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig0_1(Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig0_1(Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig0_1(Char w0, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big0_1(Char w0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big0_1(Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big0_1(Char w0, Char r0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big0_1(Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big0_1(Char w0, Char r0, Char r1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big0_1(Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Big0_1(Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppendBig0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectBig0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig0_2(Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig0_2(Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig0_2(Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig0_2(Char w0, Char w1, Int32 at) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big0_2(Char w0, Char w1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big0_2(Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big0_2(Char w0, Char w1, Char r0) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big0_2(Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big0_2(Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big0_2(Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Big0_2(Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 0); StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	String* BToString1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->ToString(); }
	String* BToStringPart1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->ToString(st, ct); }
	Char BChars1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->get_Chars(i); }
	StringBuilder* BSetChars1(Char c0, Char w0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLength1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwice1(Char c0, Int32 n, Int32 m) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClear1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Clear(); }
	StringBuilder* BCapacity1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendChar1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(w0); }
	StringBuilder* BAppendRepeat1(Char c0, Char w0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(w0, n); }
	StringBuilder* BAppendBoolean1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLine1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->AppendLine(); }
	StringBuilder* BAppendSByte1(Char c0, SByte v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertSByte1(Char c0, SByte v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendByte1(Char c0, Byte v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertByte1(Char c0, Byte v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt161(Char c0, Int16 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt161(Char c0, Int16 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt161(Char c0, UInt16 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt161(Char c0, UInt16 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt321(Char c0, Int32 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt321(Char c0, Int32 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt321(Char c0, UInt32 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt321(Char c0, UInt32 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt641(Char c0, Int64 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt641(Char c0, Int64 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt641(Char c0, UInt64 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt641(Char c0, UInt64 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BInsertBoolean1(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, true); }
	StringBuilder* BInsertChar1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Insert(at, w0); }
	StringBuilder* BRemove1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtend1(Char c0, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplace1(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1); }
	StringBuilder* BReplacePart1(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppend1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObject1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendChars1_0(Char c0, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray1_0(Char c0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert1_0(Char c0, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject1_0(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEquals1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppend1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObject1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendChars1_1(Char c0, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray1_1(Char c0, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert1_1(Char c0, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject1_1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText01_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart01_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText11_1(Char c0, Char w0, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart11_1(Char c0, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText21_1(Char c0, Char w0, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart21_1(Char c0, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText31_1(Char c0, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppend1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObject1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendChars1_2(Char c0, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray1_2(Char c0, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert1_2(Char c0, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject1_2(Char c0, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText01_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart01_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText11_2(Char c0, Char w0, Char w1, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart11_2(Char c0, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText21_2(Char c0, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart21_2(Char c0, Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText31_2(Char c0, Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	String* BToStringFull1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(); }
	String* BToStringPartFull1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(st, ct); }
	Char BCharsFull1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->get_Chars(i); }
	StringBuilder* BSetCharsFull1(Char c0, Char w0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthFull1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceFull1(Char c0, Int32 n, Int32 m) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearFull1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Clear(); }
	StringBuilder* BCapacityFull1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharFull1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0); }
	StringBuilder* BAppendRepeatFull1(Char c0, Char w0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanFull1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineFull1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->AppendLine(); }
	StringBuilder* BAppendSByteFull1(Char c0, SByte v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertSByteFull1(Char c0, SByte v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendByteFull1(Char c0, Byte v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertByteFull1(Char c0, Byte v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Full1(Char c0, Int16 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt16Full1(Char c0, Int16 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Full1(Char c0, UInt16 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt16Full1(Char c0, UInt16 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Full1(Char c0, Int32 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt32Full1(Char c0, Int32 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Full1(Char c0, UInt32 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt32Full1(Char c0, UInt32 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Full1(Char c0, Int64 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt64Full1(Char c0, Int64 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Full1(Char c0, UInt64 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt64Full1(Char c0, UInt64 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanFull1(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, true); }
	StringBuilder* BInsertCharFull1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, w0); }
	StringBuilder* BRemoveFull1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendFull1(Char c0, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceFull1(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartFull1(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendFull1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectFull1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull1_0(Char c0, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull1_0(Char c0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull1_0(Char c0, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull1_0(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendFull1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectFull1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull1_1(Char c0, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull1_1(Char c0, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull1_1(Char c0, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull1_1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full1_1(Char c0, Char w0, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full1_1(Char c0, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full1_1(Char c0, Char w0, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full1_1(Char c0, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Full1_1(Char c0, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppendFull1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectFull1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull1_2(Char c0, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull1_2(Char c0, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull1_2(Char c0, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull1_2(Char c0, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full1_2(Char c0, Char w0, Char w1, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full1_2(Char c0, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full1_2(Char c0, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full1_2(Char c0, Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Full1_2(Char c0, Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	String* BToStringBig1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(); }
	String* BToStringPartBig1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(st, ct); }
	Char BCharsBig1(Char c0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->get_Chars(i); }
	StringBuilder* BSetCharsBig1(Char c0, Char w0, Int32 i) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthBig1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceBig1(Char c0, Int32 n, Int32 m) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearBig1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Clear(); }
	StringBuilder* BCapacityBig1(Char c0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharBig1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0); }
	StringBuilder* BAppendRepeatBig1(Char c0, Char w0, Int32 n) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanBig1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineBig1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->AppendLine(); }
	StringBuilder* BAppendSByteBig1(Char c0, SByte v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertSByteBig1(Char c0, SByte v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendByteBig1(Char c0, Byte v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertByteBig1(Char c0, Byte v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Big1(Char c0, Int16 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt16Big1(Char c0, Int16 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Big1(Char c0, UInt16 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt16Big1(Char c0, UInt16 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Big1(Char c0, Int32 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt32Big1(Char c0, Int32 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Big1(Char c0, UInt32 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt32Big1(Char c0, UInt32 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Big1(Char c0, Int64 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt64Big1(Char c0, Int64 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Big1(Char c0, UInt64 v) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt64Big1(Char c0, UInt64 v, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanBig1(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, true); }
	StringBuilder* BInsertCharBig1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, w0); }
	StringBuilder* BRemoveBig1(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendBig1(Char c0, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceBig1(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartBig1(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendBig1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectBig1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig1_0(Char c0, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig1_0(Char c0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig1_0(Char c0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig1_0(Char c0, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig1_0(Char c0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendBig1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectBig1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig1_1(Char c0, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig1_1(Char c0, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig1_1(Char c0, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig1_1(Char c0, Char w0, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big1_1(Char c0, Char w0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big1_1(Char c0, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big1_1(Char c0, Char w0, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big1_1(Char c0, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big1_1(Char c0, Char w0, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big1_1(Char c0, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Big1_1(Char c0, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppendBig1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectBig1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig1_2(Char c0, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig1_2(Char c0, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig1_2(Char c0, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig1_2(Char c0, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big1_2(Char c0, Char w0, Char w1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big1_2(Char c0, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big1_2(Char c0, Char w0, Char w1, Char r0) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big1_2(Char c0, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big1_2(Char c0, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big1_2(Char c0, Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Big1_2(Char c0, Char w0, Char w1, Char r0, Char r1, Char r2) { String* s = new String(L' ', 1); *s->Address(0) = c0; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	String* BToString2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->ToString(); }
	String* BToStringPart2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->ToString(st, ct); }
	Char BChars2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->get_Chars(i); }
	StringBuilder* BSetChars2(Char c0, Char c1, Char w0, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLength2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwice2(Char c0, Char c1, Int32 n, Int32 m) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClear2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Clear(); }
	StringBuilder* BCapacity2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendChar2(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(w0); }
	StringBuilder* BAppendRepeat2(Char c0, Char c1, Char w0, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(w0, n); }
	StringBuilder* BAppendBoolean2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLine2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->AppendLine(); }
	StringBuilder* BAppendSByte2(Char c0, Char c1, SByte v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertSByte2(Char c0, Char c1, SByte v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendByte2(Char c0, Char c1, Byte v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertByte2(Char c0, Char c1, Byte v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt162(Char c0, Char c1, Int16 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt162(Char c0, Char c1, Int16 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt162(Char c0, Char c1, UInt16 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt162(Char c0, Char c1, UInt16 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt322(Char c0, Char c1, Int32 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt322(Char c0, Char c1, Int32 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt322(Char c0, Char c1, UInt32 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt322(Char c0, Char c1, UInt32 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt642(Char c0, Char c1, Int64 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt642(Char c0, Char c1, Int64 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt642(Char c0, Char c1, UInt64 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt642(Char c0, Char c1, UInt64 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BInsertBoolean2(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, true); }
	StringBuilder* BInsertChar2(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Insert(at, w0); }
	StringBuilder* BRemove2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtend2(Char c0, Char c1, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplace2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1); }
	StringBuilder* BReplacePart2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppend2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObject2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendChars2_0(Char c0, Char c1, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray2_0(Char c0, Char c1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert2_0(Char c0, Char c1, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject2_0(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEquals2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppend2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObject2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendChars2_1(Char c0, Char c1, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray2_1(Char c0, Char c1, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert2_1(Char c0, Char c1, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject2_1(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText02_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart02_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText12_1(Char c0, Char c1, Char w0, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart12_1(Char c0, Char c1, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText22_1(Char c0, Char c1, Char w0, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart22_1(Char c0, Char c1, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText32_1(Char c0, Char c1, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppend2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObject2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendChars2_2(Char c0, Char c1, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray2_2(Char c0, Char c1, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert2_2(Char c0, Char c1, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject2_2(Char c0, Char c1, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText02_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart02_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText12_2(Char c0, Char c1, Char w0, Char w1, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart12_2(Char c0, Char c1, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText22_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart22_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	String* BToStringFull2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(); }
	String* BToStringPartFull2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(st, ct); }
	Char BCharsFull2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->get_Chars(i); }
	StringBuilder* BSetCharsFull2(Char c0, Char c1, Char w0, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthFull2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceFull2(Char c0, Char c1, Int32 n, Int32 m) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearFull2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Clear(); }
	StringBuilder* BCapacityFull2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharFull2(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0); }
	StringBuilder* BAppendRepeatFull2(Char c0, Char c1, Char w0, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanFull2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineFull2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->AppendLine(); }
	StringBuilder* BAppendSByteFull2(Char c0, Char c1, SByte v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertSByteFull2(Char c0, Char c1, SByte v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendByteFull2(Char c0, Char c1, Byte v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertByteFull2(Char c0, Char c1, Byte v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Full2(Char c0, Char c1, Int16 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt16Full2(Char c0, Char c1, Int16 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Full2(Char c0, Char c1, UInt16 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt16Full2(Char c0, Char c1, UInt16 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Full2(Char c0, Char c1, Int32 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt32Full2(Char c0, Char c1, Int32 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Full2(Char c0, Char c1, UInt32 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt32Full2(Char c0, Char c1, UInt32 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Full2(Char c0, Char c1, Int64 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt64Full2(Char c0, Char c1, Int64 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Full2(Char c0, Char c1, UInt64 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt64Full2(Char c0, Char c1, UInt64 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanFull2(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, true); }
	StringBuilder* BInsertCharFull2(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, w0); }
	StringBuilder* BRemoveFull2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendFull2(Char c0, Char c1, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceFull2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartFull2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendFull2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectFull2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull2_0(Char c0, Char c1, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull2_0(Char c0, Char c1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull2_0(Char c0, Char c1, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull2_0(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendFull2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectFull2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull2_1(Char c0, Char c1, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull2_1(Char c0, Char c1, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull2_1(Char c0, Char c1, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull2_1(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full2_1(Char c0, Char c1, Char w0, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full2_1(Char c0, Char c1, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full2_1(Char c0, Char c1, Char w0, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full2_1(Char c0, Char c1, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Full2_1(Char c0, Char c1, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppendFull2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectFull2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull2_2(Char c0, Char c1, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull2_2(Char c0, Char c1, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull2_2(Char c0, Char c1, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull2_2(Char c0, Char c1, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full2_2(Char c0, Char c1, Char w0, Char w1, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	String* BToStringBig2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(); }
	String* BToStringPartBig2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(st, ct); }
	Char BCharsBig2(Char c0, Char c1, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->get_Chars(i); }
	StringBuilder* BSetCharsBig2(Char c0, Char c1, Char w0, Int32 i) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthBig2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceBig2(Char c0, Char c1, Int32 n, Int32 m) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearBig2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Clear(); }
	StringBuilder* BCapacityBig2(Char c0, Char c1, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharBig2(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0); }
	StringBuilder* BAppendRepeatBig2(Char c0, Char c1, Char w0, Int32 n) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanBig2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineBig2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->AppendLine(); }
	StringBuilder* BAppendSByteBig2(Char c0, Char c1, SByte v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertSByteBig2(Char c0, Char c1, SByte v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendByteBig2(Char c0, Char c1, Byte v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertByteBig2(Char c0, Char c1, Byte v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Big2(Char c0, Char c1, Int16 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt16Big2(Char c0, Char c1, Int16 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Big2(Char c0, Char c1, UInt16 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt16Big2(Char c0, Char c1, UInt16 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Big2(Char c0, Char c1, Int32 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt32Big2(Char c0, Char c1, Int32 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Big2(Char c0, Char c1, UInt32 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt32Big2(Char c0, Char c1, UInt32 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Big2(Char c0, Char c1, Int64 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt64Big2(Char c0, Char c1, Int64 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Big2(Char c0, Char c1, UInt64 v) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt64Big2(Char c0, Char c1, UInt64 v, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanBig2(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, true); }
	StringBuilder* BInsertCharBig2(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, w0); }
	StringBuilder* BRemoveBig2(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendBig2(Char c0, Char c1, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceBig2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartBig2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendBig2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectBig2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig2_0(Char c0, Char c1, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig2_0(Char c0, Char c1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig2_0(Char c0, Char c1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig2_0(Char c0, Char c1, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig2_0(Char c0, Char c1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendBig2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectBig2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig2_1(Char c0, Char c1, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig2_1(Char c0, Char c1, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig2_1(Char c0, Char c1, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig2_1(Char c0, Char c1, Char w0, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big2_1(Char c0, Char c1, Char w0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big2_1(Char c0, Char c1, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big2_1(Char c0, Char c1, Char w0, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big2_1(Char c0, Char c1, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big2_1(Char c0, Char c1, Char w0, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big2_1(Char c0, Char c1, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText3Big2_1(Char c0, Char c1, Char w0, Char r0, Char r1, Char r2) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 3); *r->Address(0) = r0; *r->Address(1) = r1; *r->Address(2) = r2; return b->Replace(w, r); }
	StringBuilder* BAppendBig2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectBig2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig2_2(Char c0, Char c1, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig2_2(Char c0, Char c1, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig2_2(Char c0, Char c1, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig2_2(Char c0, Char c1, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big2_2(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big2_2(Char c0, Char c1, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big2_2(Char c0, Char c1, Char w0, Char w1, Char r0) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big2_2(Char c0, Char c1, Char w0, Char w1, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	String* BToString3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->ToString(); }
	String* BToStringPart3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->ToString(st, ct); }
	Char BChars3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->get_Chars(i); }
	StringBuilder* BSetChars3(Char c0, Char c1, Char c2, Char w0, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLength3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwice3(Char c0, Char c1, Char c2, Int32 n, Int32 m) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClear3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Clear(); }
	StringBuilder* BCapacity3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendChar3(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(w0); }
	StringBuilder* BAppendRepeat3(Char c0, Char c1, Char c2, Char w0, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(w0, n); }
	StringBuilder* BAppendBoolean3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLine3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->AppendLine(); }
	StringBuilder* BAppendSByte3(Char c0, Char c1, Char c2, SByte v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertSByte3(Char c0, Char c1, Char c2, SByte v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendByte3(Char c0, Char c1, Char c2, Byte v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertByte3(Char c0, Char c1, Char c2, Byte v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt163(Char c0, Char c1, Char c2, Int16 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt163(Char c0, Char c1, Char c2, Int16 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt163(Char c0, Char c1, Char c2, UInt16 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt163(Char c0, Char c1, Char c2, UInt16 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt323(Char c0, Char c1, Char c2, Int32 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt323(Char c0, Char c1, Char c2, Int32 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt323(Char c0, Char c1, Char c2, UInt32 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt323(Char c0, Char c1, Char c2, UInt32 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendInt643(Char c0, Char c1, Char c2, Int64 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertInt643(Char c0, Char c1, Char c2, Int64 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BAppendUInt643(Char c0, Char c1, Char c2, UInt64 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Append(v); }
	StringBuilder* BInsertUInt643(Char c0, Char c1, Char c2, UInt64 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, v); }
	StringBuilder* BInsertBoolean3(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, true); }
	StringBuilder* BInsertChar3(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Insert(at, w0); }
	StringBuilder* BRemove3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtend3(Char c0, Char c1, Char c2, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplace3(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1); }
	StringBuilder* BReplacePart3(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppend3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObject3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendChars3_0(Char c0, Char c1, Char c2, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray3_0(Char c0, Char c1, Char c2, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert3_0(Char c0, Char c1, Char c2, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject3_0(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEquals3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppend3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObject3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendChars3_1(Char c0, Char c1, Char c2, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray3_1(Char c0, Char c1, Char c2, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert3_1(Char c0, Char c1, Char c2, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject3_1(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText03_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart03_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText13_1(Char c0, Char c1, Char c2, Char w0, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart13_1(Char c0, Char c1, Char c2, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText23_1(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart23_1(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BAppend3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObject3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPart3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineText3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendChars3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArray3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArray3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsert3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObject3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEquals3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText03_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart03_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText13_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart13_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	String* BToStringFull3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(); }
	String* BToStringPartFull3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->ToString(st, ct); }
	Char BCharsFull3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->get_Chars(i); }
	StringBuilder* BSetCharsFull3(Char c0, Char c1, Char c2, Char w0, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthFull3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceFull3(Char c0, Char c1, Char c2, Int32 n, Int32 m) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearFull3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Clear(); }
	StringBuilder* BCapacityFull3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharFull3(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0); }
	StringBuilder* BAppendRepeatFull3(Char c0, Char c1, Char c2, Char w0, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanFull3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineFull3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->AppendLine(); }
	StringBuilder* BAppendSByteFull3(Char c0, Char c1, Char c2, SByte v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertSByteFull3(Char c0, Char c1, Char c2, SByte v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendByteFull3(Char c0, Char c1, Char c2, Byte v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertByteFull3(Char c0, Char c1, Char c2, Byte v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Full3(Char c0, Char c1, Char c2, Int16 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt16Full3(Char c0, Char c1, Char c2, Int16 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Full3(Char c0, Char c1, Char c2, UInt16 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt16Full3(Char c0, Char c1, Char c2, UInt16 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Full3(Char c0, Char c1, Char c2, Int32 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt32Full3(Char c0, Char c1, Char c2, Int32 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Full3(Char c0, Char c1, Char c2, UInt32 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt32Full3(Char c0, Char c1, Char c2, UInt32 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Full3(Char c0, Char c1, Char c2, Int64 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertInt64Full3(Char c0, Char c1, Char c2, Int64 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Full3(Char c0, Char c1, Char c2, UInt64 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Append(v); }
	StringBuilder* BInsertUInt64Full3(Char c0, Char c1, Char c2, UInt64 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanFull3(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, true); }
	StringBuilder* BInsertCharFull3(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Insert(at, w0); }
	StringBuilder* BRemoveFull3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendFull3(Char c0, Char c1, Char c2, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceFull3(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartFull3(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendFull3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectFull3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull3_0(Char c0, Char c1, Char c2, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull3_0(Char c0, Char c1, Char c2, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull3_0(Char c0, Char c1, Char c2, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull3_0(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendFull3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectFull3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull3_1(Char c0, Char c1, Char c2, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull3_1(Char c0, Char c1, Char c2, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull3_1(Char c0, Char c1, Char c2, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull3_1(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full3_1(Char c0, Char c1, Char c2, Char w0, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full3_1(Char c0, Char c1, Char c2, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Full3_1(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Full3_1(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BAppendFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsFull3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Full3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Full3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Full3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Full3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(b->get_Length()); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	String* BToStringBig3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(); }
	String* BToStringPartBig3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->ToString(st, ct); }
	Char BCharsBig3(Char c0, Char c1, Char c2, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->get_Chars(i); }
	StringBuilder* BSetCharsBig3(Char c0, Char c1, Char c2, Char w0, Int32 i) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Chars(i, w0); return b; }
	StringBuilder* BSetLengthBig3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); return b; }
	StringBuilder* BSetLengthTwiceBig3(Char c0, Char c1, Char c2, Int32 n, Int32 m) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->set_Length(n); b->set_Length(m); return b; }
	StringBuilder* BClearBig3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Clear(); }
	StringBuilder* BCapacityBig3(Char c0, Char c1, Char c2, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->EnsureCapacity(n); return b; }
	StringBuilder* BAppendCharBig3(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0); }
	StringBuilder* BAppendRepeatBig3(Char c0, Char c1, Char c2, Char w0, Int32 n) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(w0, n); }
	StringBuilder* BAppendBooleanBig3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(true)->Append(false); }
	StringBuilder* BAppendLineBig3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->AppendLine(); }
	StringBuilder* BAppendSByteBig3(Char c0, Char c1, Char c2, SByte v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertSByteBig3(Char c0, Char c1, Char c2, SByte v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendByteBig3(Char c0, Char c1, Char c2, Byte v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertByteBig3(Char c0, Char c1, Char c2, Byte v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt16Big3(Char c0, Char c1, Char c2, Int16 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt16Big3(Char c0, Char c1, Char c2, Int16 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt16Big3(Char c0, Char c1, Char c2, UInt16 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt16Big3(Char c0, Char c1, Char c2, UInt16 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt32Big3(Char c0, Char c1, Char c2, Int32 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt32Big3(Char c0, Char c1, Char c2, Int32 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt32Big3(Char c0, Char c1, Char c2, UInt32 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt32Big3(Char c0, Char c1, Char c2, UInt32 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendInt64Big3(Char c0, Char c1, Char c2, Int64 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertInt64Big3(Char c0, Char c1, Char c2, Int64 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BAppendUInt64Big3(Char c0, Char c1, Char c2, UInt64 v) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Append(v); }
	StringBuilder* BInsertUInt64Big3(Char c0, Char c1, Char c2, UInt64 v, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, v); }
	StringBuilder* BInsertBooleanBig3(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, true); }
	StringBuilder* BInsertCharBig3(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Insert(at, w0); }
	StringBuilder* BRemoveBig3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Remove(st, ct); }
	StringBuilder* BRemoveExtendBig3(Char c0, Char c1, Char c2, Int32 st, Int32 ct, Int32 m) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); b->Remove(st, ct); b->set_Length(m); return b; }
	StringBuilder* BReplaceBig3(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1); }
	StringBuilder* BReplacePartBig3(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); return b->Replace(w0, w1, st, ct); }
	StringBuilder* BAppendBig3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w); }
	StringBuilder* BAppendObjectBig3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig3_0(Char c0, Char c1, Char c2, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig3_0(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig3_0(Char c0, Char c1, Char c2, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Array* a = new Array(CharType, 0); for (Int32 i = 0; i < 0; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig3_0(Char c0, Char c1, Char c2, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig3_0(Char c0, Char c1, Char c2, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 0); StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BAppendBig3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w); }
	StringBuilder* BAppendObjectBig3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig3_1(Char c0, Char c1, Char c2, Char w0, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig3_1(Char c0, Char c1, Char c2, Char w0, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Array* a = new Array(CharType, 1); for (Int32 i = 0; i < 1; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig3_1(Char c0, Char c1, Char c2, Char w0, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig3_1(Char c0, Char c1, Char c2, Char w0, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big3_1(Char c0, Char c1, Char c2, Char w0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big3_1(Char c0, Char c1, Char c2, Char w0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big3_1(Char c0, Char c1, Char c2, Char w0, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big3_1(Char c0, Char c1, Char c2, Char w0, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText2Big3_1(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart2Big3_1(Char c0, Char c1, Char c2, Char w0, Char r0, Char r1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 1); *w->Address(0) = w0; String* r = new String(L' ', 2); *r->Address(0) = r0; *r->Address(1) = r1; return b->Replace(w, r, st, ct); }
	StringBuilder* BAppendBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w); }
	StringBuilder* BAppendObjectBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Append(o); }
	StringBuilder* BAppendPartBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w, st, ct); }
	StringBuilder* BAppendLineTextBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->AppendLine(w); }
	StringBuilder* BAppendCharsBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 ct, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Append(w->get_Buffer(), ct, at); }
	StringBuilder* BAppendArrayBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Append(a, st, ct); }
	StringBuilder* BInsertArrayBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Array* a = new Array(CharType, 2); for (Int32 i = 0; i < 2; ++i) *(Char*) a->Address(i) = *w->Address(i); return b->Insert(at, a, st, ct); }
	StringBuilder* BInsertBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; return b->Insert(at, w, ct); }
	StringBuilder* BInsertObjectBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 at) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; Object* o = w; return b->Insert(at, o); }
	Boolean BEqualsBig3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* d = new StringBuilder(w); d->set_Capacity(b->get_Capacity() < d->get_Length() ? 128 : b->get_Capacity()); return b->Equals(d); }
	StringBuilder* BReplaceText0Big3_2(Char c0, Char c1, Char c2, Char w0, Char w1) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart0Big3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 0); return b->Replace(w, r, st, ct); }
	StringBuilder* BReplaceText1Big3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r); }
	StringBuilder* BReplaceTextPart1Big3_2(Char c0, Char c1, Char c2, Char w0, Char w1, Char r0, Int32 st, Int32 ct) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(s); b->set_Capacity(200); String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; String* r = new String(L' ', 1); *r->Address(0) = r0; return b->Replace(w, r, st, ct); }
	StringBuilder* BGrow125(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 125); return b->Append(s); }
	StringBuilder* BGrowInsert125(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 125); return b->Insert(1, s); }
	StringBuilder* BGrowTwice125(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 125); b->Append(c0)->Append(c1); return b->Append(s, 2, 1); }
	StringBuilder* BGrowLine125(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 125); return b->AppendLine(s); }
	String* BGrowText125(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 125); b->Append(s)->Remove(0, 120); return b->ToString(); }
	StringBuilder* BGrow126(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 126); return b->Append(s); }
	StringBuilder* BGrowInsert126(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 126); return b->Insert(1, s); }
	StringBuilder* BGrowTwice126(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 126); b->Append(c0)->Append(c1); return b->Append(s, 2, 1); }
	StringBuilder* BGrowLine126(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 126); return b->AppendLine(s); }
	String* BGrowText126(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 126); b->Append(s)->Remove(0, 120); return b->ToString(); }
	StringBuilder* BGrow127(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 127); return b->Append(s); }
	StringBuilder* BGrowInsert127(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 127); return b->Insert(1, s); }
	StringBuilder* BGrowTwice127(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 127); b->Append(c0)->Append(c1); return b->Append(s, 2, 1); }
	StringBuilder* BGrowLine127(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 127); return b->AppendLine(s); }
	String* BGrowText127(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 127); b->Append(s)->Remove(0, 120); return b->ToString(); }
	StringBuilder* BGrow128(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 128); return b->Append(s); }
	StringBuilder* BGrowInsert128(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 128); return b->Insert(1, s); }
	StringBuilder* BGrowTwice128(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 128); b->Append(c0)->Append(c1); return b->Append(s, 2, 1); }
	StringBuilder* BGrowLine128(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 128); return b->AppendLine(s); }
	String* BGrowText128(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; StringBuilder* b = new StringBuilder(); b->Append(L'x', 128); b->Append(s)->Remove(0, 120); return b->ToString(); }
	String* BLongText_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(); }
	String* BLongPart_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(59, 306); }
	StringBuilder* BLongGrow_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(764); return b; }
	StringBuilder* BLongGrowMore_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BLongCapacity_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Capacity(764); return b; }
	StringBuilder* BLongExtend_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(532); return b; }
	StringBuilder* BLongCut_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(364); return b; }
	StringBuilder* BLongCutExtend_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(364); b->set_Length(382); return b; }
	StringBuilder* BLongInsert_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(61, new String(L'z', 140)); }
	StringBuilder* BLongInsertTwice_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(61, new String(L"abc"), 2); }
	StringBuilder* BLongInsertChar_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(0, L'w'); }
	StringBuilder* BLongInsertNumber_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(62, (Int32) 7); }
	StringBuilder* BLongInsertArray_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(62, (new String(L"abcd"))->ToCharArray(), 1, 2); }
	StringBuilder* BLongRemove_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(50, 130); }
	StringBuilder* BLongRemoveFirst_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(0, 1); }
	StringBuilder* BLongRemoveLast_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(381, 1); }
	StringBuilder* BLongRemoveMost_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(2, 379); }
	StringBuilder* BLongShorter_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"xx"), new String(L"q"), 0, 60); }
	StringBuilder* BLongLonger_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"x"), new String(L"qr"), 0, 30); }
	StringBuilder* BLongReplaceChar_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(L'x', L'q', 0, 60); }
	StringBuilder* BLongSelf_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Append(b->ToString()); }
	StringBuilder* BLongCopy_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString()); }
	StringBuilder* BLongCopyPart_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString(), 59, 310, 0); }
	Boolean BLongSame_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); return b->Equals(d); }
	Boolean BLongOther_60_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 60); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); d->set_Chars(381, e1 == L'a' ? L'b' : L'a'); return b->Equals(d); }
	String* BLongText_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(); }
	String* BLongPart_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(125, 132); }
	StringBuilder* BLongGrow_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(548); return b; }
	StringBuilder* BLongGrowMore_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BLongCapacity_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Capacity(548); return b; }
	StringBuilder* BLongExtend_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(424); return b; }
	StringBuilder* BLongCut_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(256); return b; }
	StringBuilder* BLongCutExtend_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(256); b->set_Length(274); return b; }
	StringBuilder* BLongInsert_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(127, new String(L'z', 140)); }
	StringBuilder* BLongInsertTwice_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(127, new String(L"abc"), 2); }
	StringBuilder* BLongInsertChar_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(0, L'w'); }
	StringBuilder* BLongInsertNumber_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(128, (Int32) 7); }
	StringBuilder* BLongInsertArray_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(128, (new String(L"abcd"))->ToCharArray(), 1, 2); }
	StringBuilder* BLongRemove_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(116, 130); }
	StringBuilder* BLongRemoveFirst_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(0, 1); }
	StringBuilder* BLongRemoveLast_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(273, 1); }
	StringBuilder* BLongRemoveMost_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(2, 271); }
	StringBuilder* BLongShorter_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"xx"), new String(L"q"), 0, 126); }
	StringBuilder* BLongLonger_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"x"), new String(L"qr"), 0, 63); }
	StringBuilder* BLongReplaceChar_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(L'x', L'q', 0, 126); }
	StringBuilder* BLongSelf_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Append(b->ToString()); }
	StringBuilder* BLongCopy_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString()); }
	StringBuilder* BLongCopyPart_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString(), 125, 136, 0); }
	Boolean BLongSame_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); return b->Equals(d); }
	Boolean BLongOther_126_126(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 126); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 126); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); d->set_Chars(273, e1 == L'a' ? L'b' : L'a'); return b->Equals(d); }
	String* BLongText_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(); }
	String* BLongPart_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(126, 135); }
	StringBuilder* BLongGrow_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(556); return b; }
	StringBuilder* BLongGrowMore_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BLongCapacity_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Capacity(556); return b; }
	StringBuilder* BLongExtend_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(428); return b; }
	StringBuilder* BLongCut_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(260); return b; }
	StringBuilder* BLongCutExtend_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(260); b->set_Length(278); return b; }
	StringBuilder* BLongInsert_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(128, new String(L'z', 140)); }
	StringBuilder* BLongInsertTwice_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(128, new String(L"abc"), 2); }
	StringBuilder* BLongInsertChar_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(0, L'w'); }
	StringBuilder* BLongInsertNumber_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(129, (Int32) 7); }
	StringBuilder* BLongInsertArray_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(129, (new String(L"abcd"))->ToCharArray(), 1, 2); }
	StringBuilder* BLongRemove_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(117, 130); }
	StringBuilder* BLongRemoveFirst_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(0, 1); }
	StringBuilder* BLongRemoveLast_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(277, 1); }
	StringBuilder* BLongRemoveMost_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(2, 275); }
	StringBuilder* BLongShorter_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"xx"), new String(L"q"), 0, 127); }
	StringBuilder* BLongLonger_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"x"), new String(L"qr"), 0, 63); }
	StringBuilder* BLongReplaceChar_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(L'x', L'q', 0, 127); }
	StringBuilder* BLongSelf_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Append(b->ToString()); }
	StringBuilder* BLongCopy_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString()); }
	StringBuilder* BLongCopyPart_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString(), 126, 139, 0); }
	Boolean BLongSame_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); return b->Equals(d); }
	Boolean BLongOther_127_129(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 127); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 129); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); d->set_Chars(277, e1 == L'a' ? L'b' : L'a'); return b->Equals(d); }
	String* BLongText_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(); }
	String* BLongPart_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(199, 306); }
	StringBuilder* BLongGrow_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(1044); return b; }
	StringBuilder* BLongGrowMore_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BLongCapacity_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Capacity(1044); return b; }
	StringBuilder* BLongExtend_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(672); return b; }
	StringBuilder* BLongCut_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(504); return b; }
	StringBuilder* BLongCutExtend_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(504); b->set_Length(522); return b; }
	StringBuilder* BLongInsert_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(201, new String(L'z', 140)); }
	StringBuilder* BLongInsertTwice_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(201, new String(L"abc"), 2); }
	StringBuilder* BLongInsertChar_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(0, L'w'); }
	StringBuilder* BLongInsertNumber_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(202, (Int32) 7); }
	StringBuilder* BLongInsertArray_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(202, (new String(L"abcd"))->ToCharArray(), 1, 2); }
	StringBuilder* BLongRemove_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(190, 130); }
	StringBuilder* BLongRemoveFirst_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(0, 1); }
	StringBuilder* BLongRemoveLast_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(521, 1); }
	StringBuilder* BLongRemoveMost_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(2, 519); }
	StringBuilder* BLongShorter_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"xx"), new String(L"q"), 0, 200); }
	StringBuilder* BLongLonger_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"x"), new String(L"qr"), 0, 100); }
	StringBuilder* BLongReplaceChar_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(L'x', L'q', 0, 200); }
	StringBuilder* BLongSelf_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Append(b->ToString()); }
	StringBuilder* BLongCopy_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString()); }
	StringBuilder* BLongCopyPart_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString(), 199, 310, 0); }
	Boolean BLongSame_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); return b->Equals(d); }
	Boolean BLongOther_200_300(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 200); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 300); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); d->set_Chars(521, e1 == L'a' ? L'b' : L'a'); return b->Equals(d); }
	String* BLongText_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(); }
	String* BLongPart_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->ToString(253, 406); }
	StringBuilder* BLongGrow_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(1352); return b; }
	StringBuilder* BLongGrowMore_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BLongCapacity_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Capacity(1352); return b; }
	StringBuilder* BLongExtend_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(826); return b; }
	StringBuilder* BLongCut_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(658); return b; }
	StringBuilder* BLongCutExtend_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; b->set_Length(658); b->set_Length(676); return b; }
	StringBuilder* BLongInsert_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(255, new String(L'z', 140)); }
	StringBuilder* BLongInsertTwice_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(255, new String(L"abc"), 2); }
	StringBuilder* BLongInsertChar_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(0, L'w'); }
	StringBuilder* BLongInsertNumber_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(256, (Int32) 7); }
	StringBuilder* BLongInsertArray_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Insert(256, (new String(L"abcd"))->ToCharArray(), 1, 2); }
	StringBuilder* BLongRemove_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(244, 130); }
	StringBuilder* BLongRemoveFirst_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(0, 1); }
	StringBuilder* BLongRemoveLast_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(675, 1); }
	StringBuilder* BLongRemoveMost_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Remove(2, 673); }
	StringBuilder* BLongShorter_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"xx"), new String(L"q"), 0, 254); }
	StringBuilder* BLongLonger_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(new String(L"x"), new String(L"qr"), 0, 127); }
	StringBuilder* BLongReplaceChar_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Replace(L'x', L'q', 0, 254); }
	StringBuilder* BLongSelf_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return b->Append(b->ToString()); }
	StringBuilder* BLongCopy_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString()); }
	StringBuilder* BLongCopyPart_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; return new StringBuilder(b->ToString(), 253, 410, 0); }
	Boolean BLongSame_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); return b->Equals(d); }
	Boolean BLongOther_254_400(Char c0, Char c1, Char c2, Char e0, Char e1) { StringBuilder* b_s = new StringBuilder(); b_s->Append(L'x', 254); String* s_s = new String(L' ', 3); *s_s->Address(0) = c0; *s_s->Address(1) = c1; *s_s->Address(2) = c2; b_s->Append(s_s); b_s->Append(L'y', 400); b_s->Append(e0)->Append(L'z', 17)->Append(e1); StringBuilder* b = b_s; StringBuilder* d = new StringBuilder(b->ToString()); d->set_Capacity(2000); b->set_Capacity(2000); d->set_Chars(675, e1 == L'a' ? L'b' : L'a'); return b->Equals(d); }
	StringBuilder* BThenAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(w); return b; }
	StringBuilder* BThenMiddlePrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); return b; }
	StringBuilder* BThenMiddleSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(w); return b; }
	StringBuilder* BThenDropLastPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropLastDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropLastDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropLastShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); return b; }
	StringBuilder* BThenDropLastSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropLastRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(w); return b; }
	StringBuilder* BThenSetPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Insert(0, w); return b; }
	StringBuilder* BThenSetMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Insert(1, w0); return b; }
	StringBuilder* BThenSetDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); return b; }
	StringBuilder* BThenSetDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); return b; }
	StringBuilder* BThenSetExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); return b; }
	StringBuilder* BThenSetSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->AppendLine(); return b; }
	StringBuilder* BThenSetTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(w); return b; }
	StringBuilder* BThenLinePrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Insert(0, w); return b; }
	StringBuilder* BThenLineMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Insert(1, w0); return b; }
	StringBuilder* BThenLineDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); return b; }
	StringBuilder* BThenLineDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); return b; }
	StringBuilder* BThenLineExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); return b; }
	StringBuilder* BThenLineSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->AppendLine(); return b; }
	StringBuilder* BThenLineTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(w); return b; }
	StringBuilder* BThenTwicePrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); return b; }
	StringBuilder* BThenTwiceSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenAppendWDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenAppendWDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenAppendWShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenAppendWShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenAppendWExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenAppendWExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenAppendWClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenAppendWClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenAppendWGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenAppendWGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenAppendWBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenAppendWBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenAppendWBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenAppendWBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenAppendWTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenAppendWTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenAppendWTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenAppendWTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenAppendWTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenAppendWTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenAppendWTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenAppendWTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenAppendWTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenAppendWTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenAppendWTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenAppendWTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenAppendWTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenAppendWTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenAppendWTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenPrependDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenPrependDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenPrependDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenPrependDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenPrependShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenPrependShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenPrependShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenPrependShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenPrependExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenPrependExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenPrependExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenPrependExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenPrependClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenPrependClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenPrependClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenPrependClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenPrependGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenPrependGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenPrependGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenPrependGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenPrependBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenPrependBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenPrependBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenPrependBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenPrependBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenPrependTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenPrependTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenPrependTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenPrependTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenPrependTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenPrependTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenPrependTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenPrependTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenPrependTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenPrependTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenPrependTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenPrependTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenPrependTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenPrependTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenPrependTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenMiddleDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenMiddleDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenMiddleShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenMiddleShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenMiddleExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenMiddleExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenMiddleClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenMiddleClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenMiddleGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenMiddleGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenMiddleBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenMiddleBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenMiddleBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenMiddleBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenMiddleTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenMiddleTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenMiddleTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenMiddleTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenMiddleTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenMiddleTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenMiddleTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenMiddleTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenMiddleTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenMiddleTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenMiddleTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenMiddleTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenMiddleTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenMiddleTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenMiddleTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Insert(1, w0); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenDropDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenDropDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenDropDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenDropDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenDropShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenDropShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenDropShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenDropShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenDropExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenDropExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenDropExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenDropExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenDropExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenDropClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenDropClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenDropClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenDropClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenDropClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenDropGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenDropGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenDropGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenDropGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenDropBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenDropBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenDropBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenDropBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenDropBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenDropTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenDropTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenDropTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenDropTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenDropTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenDropTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenDropTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenDropTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenDropLastDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenDropLastDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenDropLastShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropLastShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropLastShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropLastShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenDropLastShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropLastShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenDropLastExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropLastExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropLastExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropLastExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenDropLastExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropLastExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenDropLastClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenDropLastClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenDropLastGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropLastGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropLastGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropLastGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenDropLastGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropLastGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenDropLastBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenDropLastBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenDropLastBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropLastBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenDropLastBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenDropLastBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropLastBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenDropLastBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenDropLastTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenDropLastTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenDropLastTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenDropLastTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenDropLastTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenDropLastTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenDropLastTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenDropLastTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenDropLastTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenDropLastTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenDropLastTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenDropLastTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenDropLastTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenDropLastTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenDropLastTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Remove(b->get_Length() - 1, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenShrinkDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenShrinkDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenShrinkShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenShrinkShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenShrinkShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenShrinkShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenShrinkShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenShrinkShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenShrinkExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenShrinkExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenShrinkExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenShrinkExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenShrinkExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenShrinkExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenShrinkClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenShrinkClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenShrinkGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenShrinkGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenShrinkGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenShrinkGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenShrinkGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenShrinkGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenShrinkBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenShrinkBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenShrinkBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenShrinkBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenShrinkBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenShrinkBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenShrinkBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenShrinkBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenShrinkTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenShrinkTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenShrinkTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenShrinkTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenShrinkTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenShrinkTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenShrinkTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenShrinkTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenShrinkTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenShrinkTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenShrinkTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenShrinkTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenShrinkTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenShrinkTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenShrinkTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenExtendDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenExtendDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenExtendDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenExtendDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenExtendShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenExtendShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenExtendShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenExtendShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenExtendExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenExtendExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenExtendExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenExtendExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenExtendClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenExtendClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenExtendClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenExtendClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenExtendGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenExtendGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenExtendGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenExtendGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenExtendBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenExtendBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenExtendBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenExtendBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenExtendBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenExtendTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenExtendTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenExtendTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenExtendTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenExtendTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenExtendTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenExtendTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenExtendTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenExtendTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenExtendTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenExtendTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenExtendTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenExtendTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenExtendTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenExtendTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenClearShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenClearShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenClearShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenClearShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenClearShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenClearShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenClearShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenClearShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenClearShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenClearShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenClearExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenClearExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenClearExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenClearExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenClearExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenClearExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenClearExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenClearExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenClearExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenClearExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenClearClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenClearClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenClearClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenClearClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenClearClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenClearClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenClearGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenClearGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenClearGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenClearGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenClearGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenClearGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenClearBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenClearBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenClearBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenClearBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenClearBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenClearBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenClearBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenClearBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenClearBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenClearBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenClearTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenClearTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenClearTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenClearTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenClearTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenClearTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenClearTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenClearTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenClearTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenClearTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenClearTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenSetDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenSetDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenSetDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenSetDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenSetDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenSetDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenSetDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenSetShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenSetShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenSetShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenSetShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenSetShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenSetShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenSetShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenSetExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenSetExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenSetExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenSetExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenSetExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenSetExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenSetExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenSetClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenSetClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenSetClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenSetClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenSetClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenSetGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenSetGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenSetGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenSetGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenSetGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenSetGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenSetGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenSetBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenSetBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenSetBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenSetBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenSetBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenSetBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenSetBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenSetBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenSetTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenSetTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenSetTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenSetTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenSetTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenSetTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenSetTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenSetTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenSetTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenSetTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenSetTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenSetTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenSetTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenSetTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenSetTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->set_Chars(0, w1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenRepeatDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenRepeatDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenRepeatShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenRepeatShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenRepeatExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenRepeatExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenRepeatClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenRepeatClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenRepeatGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenRepeatGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenRepeatBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenRepeatBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenRepeatBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenRepeatBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenRepeatTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenRepeatTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenRepeatTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenRepeatTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenRepeatTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenRepeatTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenRepeatTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenRepeatTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenRepeatTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenRepeatTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenRepeatTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenRepeatTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenRepeatTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenRepeatTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenRepeatTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenGrowDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenGrowDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenGrowDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenGrowDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenGrowShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenGrowShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenGrowShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenGrowShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenGrowExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenGrowExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenGrowExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenGrowExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenGrowClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenGrowClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenGrowClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenGrowClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenGrowGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenGrowGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenGrowGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenGrowGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenGrowBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenGrowBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenGrowBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenGrowBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenGrowBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenGrowTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenGrowTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenGrowTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenGrowTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenGrowTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenGrowTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenGrowTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenGrowTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenGrowTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenGrowTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenGrowTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenGrowTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenGrowTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenGrowTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenGrowTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenLineDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenLineDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenLineDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenLineDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenLineDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenLineDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenLineDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenLineShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenLineShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenLineShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenLineShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenLineShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenLineShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenLineShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenLineExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenLineExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenLineExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenLineExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenLineExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenLineExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenLineExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenLineClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenLineClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenLineClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenLineClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenLineClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenLineGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenLineGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenLineGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenLineGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenLineGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenLineGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenLineGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenLineBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenLineBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenLineBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenLineBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenLineBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenLineBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenLineBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenLineBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenLineTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenLineTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenLineTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenLineTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenLineTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenLineTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenLineTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenLineTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenLineTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenLineTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenLineTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenLineTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenLineTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenLineTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenLineTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->AppendLine(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenTwiceDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenTwiceDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenTwiceShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenTwiceShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenTwiceExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenTwiceExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenTwiceClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenTwiceClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenTwiceGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenTwiceGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenTwiceBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenTwiceBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenTwiceBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenTwiceBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTwiceTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenTwiceTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenTwiceTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenTwiceTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenTwiceTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTwiceTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenTwiceTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTwiceTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenTwiceTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTwiceTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenTwiceTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTwiceTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenTwiceTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenTwiceTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenTwiceTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(b->ToString()); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenBigDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenBigDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenBigExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenBigExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenBigExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenBigExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenBigExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenBigClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenBigClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenBigGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenBigGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenBigGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenBigGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenBigGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenBigBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenBigBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenBigBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenBigBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenBigBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenBigTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenBigTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenBigTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenBigTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenBigTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenBigTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenBigTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenBigTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimDropAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Append(w); return b; }
	StringBuilder* BThenTrimDropPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimDropMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimDropDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimDropDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimDropShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->set_Length(1); return b; }
	StringBuilder* BThenTrimDropExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimDropClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Clear(); return b; }
	StringBuilder* BThenTrimDropSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimDropRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimDropGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimDropLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->AppendLine(); return b; }
	StringBuilder* BThenTrimDropTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimDropBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimDropTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimShrinkAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Append(w); return b; }
	StringBuilder* BThenTrimShrinkPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimShrinkMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimShrinkDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimShrinkDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimShrinkShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->set_Length(1); return b; }
	StringBuilder* BThenTrimShrinkExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimShrinkClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Clear(); return b; }
	StringBuilder* BThenTrimShrinkSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimShrinkRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimShrinkGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimShrinkLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->AppendLine(); return b; }
	StringBuilder* BThenTrimShrinkTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimShrinkBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimShrinkTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimExtendAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Append(w); return b; }
	StringBuilder* BThenTrimExtendPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimExtendMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimExtendDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimExtendDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimExtendShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->set_Length(1); return b; }
	StringBuilder* BThenTrimExtendExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimExtendClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Clear(); return b; }
	StringBuilder* BThenTrimExtendSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimExtendRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimExtendGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimExtendLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->AppendLine(); return b; }
	StringBuilder* BThenTrimExtendTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimExtendBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimExtendTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimClearAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->Append(w); return b; }
	StringBuilder* BThenTrimClearPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimClearShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->set_Length(1); return b; }
	StringBuilder* BThenTrimClearExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimClearClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->Clear(); return b; }
	StringBuilder* BThenTrimClearRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimClearGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimClearLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->AppendLine(); return b; }
	StringBuilder* BThenTrimClearTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimClearBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimClearTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenTrimGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenTrimGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenTrimGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenTrimGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimBigAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Append(w); return b; }
	StringBuilder* BThenTrimBigPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimBigMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimBigDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimBigDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimBigShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->set_Length(1); return b; }
	StringBuilder* BThenTrimBigExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimBigClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Clear(); return b; }
	StringBuilder* BThenTrimBigSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimBigRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimBigGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimBigLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->AppendLine(); return b; }
	StringBuilder* BThenTrimBigTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimBigBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimBigTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenTrimTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenTrimTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenTrimTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenTrimTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenTrimTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenBigDropGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenBigDropGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenBigDropTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenBigDropTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenBigDropTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenBigDropTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenBigShrinkTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenBigShrinkTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenBigClearGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenBigClearGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenBigClearTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenBigClearTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenBigClearTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenBigClearTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimDropGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenTrimDropGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimDropGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimDropGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimDropGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimDropGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenTrimDropGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimDropGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenTrimDropGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimDropGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimDropGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimDropGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenTrimDropGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimDropGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimDropGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimDropTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenTrimDropTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenTrimDropTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimDropTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimDropTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimDropTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenTrimDropTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimDropTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenTrimDropTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimDropTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimDropTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimDropTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenTrimDropTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimDropTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimDropTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimShrinkGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenTrimShrinkGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimShrinkGrowMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimShrinkGrowDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimShrinkGrowDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimShrinkGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenTrimShrinkGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimShrinkGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenTrimShrinkGrowSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimShrinkGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimShrinkGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimShrinkGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenTrimShrinkGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimShrinkGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimShrinkGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimShrinkTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenTrimShrinkTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenTrimShrinkTrimMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(1, w0); return b; }
	StringBuilder* BThenTrimShrinkTrimDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(0, 1); return b; }
	StringBuilder* BThenTrimShrinkTrimDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenTrimShrinkTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenTrimShrinkTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimShrinkTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenTrimShrinkTrimSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Chars(0, w1); return b; }
	StringBuilder* BThenTrimShrinkTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimShrinkTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimShrinkTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenTrimShrinkTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimShrinkTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimShrinkTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimClearGrowAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); return b; }
	StringBuilder* BThenTrimClearGrowPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); return b; }
	StringBuilder* BThenTrimClearGrowShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(1); return b; }
	StringBuilder* BThenTrimClearGrowExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimClearGrowClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Clear(); return b; }
	StringBuilder* BThenTrimClearGrowRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimClearGrowGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimClearGrowLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->AppendLine(); return b; }
	StringBuilder* BThenTrimClearGrowTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimClearGrowBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimClearGrowTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenTrimClearTrimAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); return b; }
	StringBuilder* BThenTrimClearTrimPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); return b; }
	StringBuilder* BThenTrimClearTrimShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(1); return b; }
	StringBuilder* BThenTrimClearTrimExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenTrimClearTrimClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); return b; }
	StringBuilder* BThenTrimClearTrimRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); return b; }
	StringBuilder* BThenTrimClearTrimGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenTrimClearTrimLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->AppendLine(); return b; }
	StringBuilder* BThenTrimClearTrimTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(b->ToString()); return b; }
	StringBuilder* BThenTrimClearTrimBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(L'z', 200); return b; }
	StringBuilder* BThenTrimClearTrimTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropGrowAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenBigDropGrowAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropGrowAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropGrowAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropGrowAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropGrowAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropGrowAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropGrowAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenBigDropGrowAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropGrowAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropGrowAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropGrowAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropGrowAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropGrowAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropGrowAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropGrowPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenBigDropGrowPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropGrowPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropGrowPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropGrowPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropGrowPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropGrowPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropGrowPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenBigDropGrowPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropGrowPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropGrowPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropGrowPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropGrowPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropGrowPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropGrowPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropGrowRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenBigDropGrowRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropGrowRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropGrowRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropGrowRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropGrowRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropGrowRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropGrowRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenBigDropGrowRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropGrowRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropGrowRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropGrowRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropGrowRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropGrowRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropGrowRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropTrimAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenBigDropTrimAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropTrimAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropTrimAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropTrimAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropTrimAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropTrimAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropTrimAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenBigDropTrimAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropTrimAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropTrimAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropTrimAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropTrimAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropTrimAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropTrimAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropTrimPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenBigDropTrimPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropTrimPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropTrimPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropTrimPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropTrimPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropTrimPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropTrimPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenBigDropTrimPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropTrimPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropTrimPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropTrimPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropTrimPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropTrimPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropTrimPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigDropTrimRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenBigDropTrimRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenBigDropTrimRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigDropTrimRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigDropTrimRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigDropTrimRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenBigDropTrimRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigDropTrimRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenBigDropTrimRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigDropTrimRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigDropTrimRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigDropTrimRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenBigDropTrimRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigDropTrimRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigDropTrimRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Remove(0, 1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkGrowAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkGrowAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkGrowPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkGrowPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkGrowPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkGrowPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkGrowPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkGrowPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkGrowPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkGrowPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkGrowPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkGrowPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkGrowPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkGrowPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkGrowPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkGrowPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkGrowPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkGrowRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkGrowRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkTrimAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkTrimAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkTrimPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkTrimPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkTrimPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkTrimPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkTrimPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkTrimPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkTrimPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkTrimPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkTrimPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkTrimPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkTrimPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkTrimPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkTrimPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkTrimPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkTrimPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigShrinkTrimRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigShrinkTrimRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->set_Length(1); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearGrowAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenBigClearGrowAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearGrowAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigClearGrowAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigClearGrowAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigClearGrowAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearGrowAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearGrowAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenBigClearGrowAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigClearGrowAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearGrowAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearGrowAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearGrowAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearGrowAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearGrowAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearGrowPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenBigClearGrowPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearGrowPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigClearGrowPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigClearGrowPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigClearGrowPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearGrowPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearGrowPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenBigClearGrowPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigClearGrowPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearGrowPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearGrowPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearGrowPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearGrowPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearGrowPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearGrowRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenBigClearGrowRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearGrowRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigClearGrowRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigClearGrowRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigClearGrowRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearGrowRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearGrowRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenBigClearGrowRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigClearGrowRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearGrowRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearGrowRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearGrowRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearGrowRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearGrowRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); b->EnsureCapacity(b->get_Capacity() + 1); b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearTrimAppendWAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(w); return b; }
	StringBuilder* BThenBigClearTrimAppendWPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearTrimAppendWMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigClearTrimAppendWDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigClearTrimAppendWDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigClearTrimAppendWShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearTrimAppendWExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearTrimAppendWClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Clear(); return b; }
	StringBuilder* BThenBigClearTrimAppendWSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigClearTrimAppendWRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearTrimAppendWGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearTrimAppendWLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearTrimAppendWTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearTrimAppendWBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearTrimAppendWTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearTrimPrependAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(w); return b; }
	StringBuilder* BThenBigClearTrimPrependPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearTrimPrependMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigClearTrimPrependDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigClearTrimPrependDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigClearTrimPrependShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearTrimPrependExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearTrimPrependClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Clear(); return b; }
	StringBuilder* BThenBigClearTrimPrependSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigClearTrimPrependRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearTrimPrependGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearTrimPrependLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearTrimPrependTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearTrimPrependBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearTrimPrependTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Insert(0, w); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
	StringBuilder* BThenBigClearTrimRepeatAppendW(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(w); return b; }
	StringBuilder* BThenBigClearTrimRepeatPrepend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Insert(0, w); return b; }
	StringBuilder* BThenBigClearTrimRepeatMiddle(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Insert(1, w0); return b; }
	StringBuilder* BThenBigClearTrimRepeatDrop(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Remove(0, 1); return b; }
	StringBuilder* BThenBigClearTrimRepeatDropLast(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Remove(b->get_Length() - 1, 1); return b; }
	StringBuilder* BThenBigClearTrimRepeatShrink(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Length(1); return b; }
	StringBuilder* BThenBigClearTrimRepeatExtend(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Length(b->get_Length() + 3); return b; }
	StringBuilder* BThenBigClearTrimRepeatClear(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Clear(); return b; }
	StringBuilder* BThenBigClearTrimRepeatSet(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->set_Chars(0, w1); return b; }
	StringBuilder* BThenBigClearTrimRepeatRepeat(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(w1, 2); return b; }
	StringBuilder* BThenBigClearTrimRepeatGrow(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->EnsureCapacity(b->get_Capacity() + 1); return b; }
	StringBuilder* BThenBigClearTrimRepeatLine(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->AppendLine(); return b; }
	StringBuilder* BThenBigClearTrimRepeatTwice(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(b->ToString()); return b; }
	StringBuilder* BThenBigClearTrimRepeatBig(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); b->Append(L'z', 200); return b; }
	StringBuilder* BThenBigClearTrimRepeatTrim(Char c0, Char c1, Char w0, Char w1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1;String* w = new String(L' ', 2); *w->Address(0) = w0; *w->Address(1) = w1; StringBuilder* b = new StringBuilder(s); b->Append(L'z', 200); b->Clear(); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } b->Append(w1, 2); try { b->set_Capacity(b->get_Length() + 1); } catch (Exception*) { } return b; }
}
