// Written by gen_text.py. Never executed: analysed together with the library by absint against spec/text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	Char Enumerate0_0() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); return e->get_Current(); }
	Boolean MoveNext0_0() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); return e->MoveNext(); }
	Char Reset0_0() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->Reset(); return e->get_Current(); }
	Char Enumerate0_1() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext0_1() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->MoveNext(); }
	Char Reset0_1() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Enumerate0_2() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext0_2() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset0_2() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	String* Walk0() { String* s = new String(L' ', 0); CharEnumerator* e = s->GetEnumerator(); StringBuilder b; while (e->MoveNext()) b.Append(e->get_Current()); return b.ToString(); }
	Char Enumerate1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); return e->get_Current(); }
	Boolean MoveNext1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); return e->MoveNext(); }
	Char Reset1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->Reset(); return e->get_Current(); }
	Char Again1_0(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate1_1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext1_1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->MoveNext(); }
	Char Reset1_1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again1_1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate1_2(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext1_2(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset1_2(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again1_2(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate1_3(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext1_3(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset1_3(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again1_3(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	String* Walk1(Char c0) { String* s = new String(L' ', 1); *s->Address(0) = c0; CharEnumerator* e = s->GetEnumerator(); StringBuilder b; while (e->MoveNext()) b.Append(e->get_Current()); return b.ToString(); }
	Char Enumerate2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); return e->get_Current(); }
	Boolean MoveNext2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); return e->MoveNext(); }
	Char Reset2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->Reset(); return e->get_Current(); }
	Char Again2_0(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate2_1(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext2_1(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->MoveNext(); }
	Char Reset2_1(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again2_1(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate2_2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext2_2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset2_2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again2_2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate2_3(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext2_3(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset2_3(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again2_3(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate2_4(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext2_4(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset2_4(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again2_4(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	String* Walk2(Char c0, Char c1) { String* s = new String(L' ', 2); *s->Address(0) = c0; *s->Address(1) = c1; CharEnumerator* e = s->GetEnumerator(); StringBuilder b; while (e->MoveNext()) b.Append(e->get_Current()); return b.ToString(); }
	Char Enumerate3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); return e->get_Current(); }
	Boolean MoveNext3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); return e->MoveNext(); }
	Char Reset3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->Reset(); return e->get_Current(); }
	Char Again3_0(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate3_1(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext3_1(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); return e->MoveNext(); }
	Char Reset3_1(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again3_1(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate3_2(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext3_2(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset3_2(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again3_2(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate3_3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext3_3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset3_3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again3_3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate3_4(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext3_4(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset3_4(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again3_4(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	Char Enumerate3_5(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->get_Current(); }
	Boolean MoveNext3_5(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); return e->MoveNext(); }
	Char Reset3_5(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); return e->get_Current(); }
	Char Again3_5(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->MoveNext(); e->Reset(); e->MoveNext(); return e->get_Current(); }
	String* Walk3(Char c0, Char c1, Char c2) { String* s = new String(L' ', 3); *s->Address(0) = c0; *s->Address(1) = c1; *s->Address(2) = c2; CharEnumerator* e = s->GetEnumerator(); StringBuilder b; while (e->MoveNext()) b.Append(e->get_Current()); return b.ToString(); }
}
