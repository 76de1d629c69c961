// Written by gen_except.py. Never executed: analysed together with the library by absint against spec/run.py.
#include "DotnetTypes.h"
#include "DotNetLibrarySupport.h"
using namespace DotnetLibrary;

char* volatile none;
struct Quiet : public DotnetLibrarySupport::TranslatorSupport { };
struct Keeps : public DotnetLibrarySupport::TranslatorSupport { uint64_t n; char* p; virtual void RunCode() { p = (char*) my_operator_new_replacement(n); my_operator_delete_replacement(p); if (p != nullptr && n > 0) p[n - 1] = 1; } };
struct Twice : public DotnetLibrarySupport::TranslatorSupport { uint64_t n; int k; char* p[2]; virtual void RunCode() { p[k++] = (char*) my_operator_new_replacement(n); } };
struct Counts : public DotnetLibrarySupport::TranslatorSupport { int k; virtual void RunCode() { ++k; } };
struct Fails : public DotnetLibrarySupport::TranslatorSupport { int k; Exception* (*make)(Char); Char c; virtual void RunCode() { ++k; throw make(c); } };
struct Sends : public DotnetLibrarySupport::TranslatorSupport { Char c, d; virtual void RunCode() { Char t[] = { c, d, 0 }; Send(new String(t, 0, 2)); } };
static Exception* withText(Char c) { Char t[] = { c, 0 }; return new Exception(new String(t, 0, 1)); }
static Exception* withArgument(Char c) { Char t[] = { c, 0 }; return new ArgumentException(new String(t, 0, 1)); }
static Exception* withCause(Char c) { Char t[] = { c, 0 }; return new Exception(new String(t, 0, 1), new RankException()); }
static Exception* without(Char c) { return new Exception(); }
extern "C" { Char* absint_printed; int absint_prints; }
static Exception* make_ArgumentException(Char c) { return new ArgumentException(); }
static Exception* make_ArgumentNullException(Char c) { return new ArgumentNullException(); }
static Exception* make_ArgumentOutOfRangeException(Char c) { return new ArgumentOutOfRangeException(); }
static Exception* make_ArithmeticException(Char c) { return new ArithmeticException(); }
static Exception* make_DivideByZeroException(Char c) { return new DivideByZeroException(); }
static Exception* make_FormatException(Char c) { return new FormatException(); }
static Exception* make_IndexOutOfRangeException(Char c) { return new IndexOutOfRangeException(); }
static Exception* make_InvalidCastException(Char c) { return new InvalidCastException(); }
static Exception* make_InvalidOperationException(Char c) { return new InvalidOperationException(); }
static Exception* make_NotImplementedException(Char c) { return new NotImplementedException(); }
static Exception* make_OverflowException(Char c) { return new OverflowException(); }
static Exception* make_RankException(Char c) { return new RankException(); }
static Exception* make_ThrowMinMaxException(Char c) { return new ThrowMinMaxException(); }

namespace Pool
{
	Int32 Runs() { Counts c; c.k = 0; c.Run(); return c.k; }
	Int32 RunsAgain() { Counts c; c.k = 0; c.Run(); c.Run(); return c.k; }
	Int32 RunsQuiet() { absint_prints = 0; Quiet q; q.Run(); return absint_prints; }
	Int32 AfterFailure(Char c) { Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); f.Run(); Counts g; g.k = 0; g.Run(); return f.k * 10 + g.k; }
	Boolean Reports_withText(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); return absint_printed != nullptr && absint_printed[0] == c && absint_printed[1] == 0; }
	Int32 ReportsOnce_withText(Char c) { absint_prints = 0; Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); return absint_prints; }
	Boolean Reports_withArgument(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = withArgument; f.c = c; f.Run(); return absint_printed != nullptr && absint_printed[0] == c && absint_printed[1] == 0; }
	Int32 ReportsOnce_withArgument(Char c) { absint_prints = 0; Fails f; f.k = 0; f.make = withArgument; f.c = c; f.Run(); return absint_prints; }
	Boolean Reports_withCause(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = withCause; f.c = c; f.Run(); return absint_printed != nullptr && absint_printed[0] == c && absint_printed[1] == 0; }
	Int32 ReportsOnce_withCause(Char c) { absint_prints = 0; Fails f; f.k = 0; f.make = withCause; f.c = c; f.Run(); return absint_prints; }
	Int32 ReportsNoText(Char c) { absint_prints = 0; absint_printed = nullptr; Fails f; f.k = 0; f.make = without; f.c = c; f.Run(); return absint_printed == nullptr ? absint_prints : -1; }
	Boolean ReportsThe_ArgumentException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_ArgumentException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_ArgumentNullException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_ArgumentNullException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_ArgumentOutOfRangeException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_ArgumentOutOfRangeException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_ArithmeticException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_ArithmeticException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_DivideByZeroException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_DivideByZeroException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_FormatException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_FormatException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_IndexOutOfRangeException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_IndexOutOfRangeException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_InvalidCastException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_InvalidCastException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_InvalidOperationException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_InvalidOperationException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_NotImplementedException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_NotImplementedException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_OverflowException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_OverflowException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_RankException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_RankException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean ReportsThe_ThrowMinMaxException(Char c) { absint_printed = nullptr; Fails f; f.k = 0; f.make = make_ThrowMinMaxException; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0; }
	Boolean Sent(Char c, Char d) { absint_printed = nullptr; Sends f; f.c = c; f.d = d; f.Run(); return absint_printed != nullptr && absint_printed[0] == c && absint_printed[1] == d && absint_printed[2] == 0; }
	Int32 SentNothing() { absint_prints = 0; absint_printed = nullptr; Quiet q; q.Send(nullptr); return absint_printed == nullptr ? absint_prints : -1; }
	Int32 SameMemory(UInt64 n) { Twice t; t.n = n; t.k = 0; t.Run(); t.Run(); return t.k == 2 && t.p[0] == t.p[1]; }
	Int32 SameMemoryAfterFailure(UInt64 n, Char c) { Twice t; t.n = n; t.k = 0; t.Run(); Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); t.Run(); return t.k == 2 && t.p[0] == t.p[1]; }
	Array* PlatformArray() { DotnetLibrarySupport::DataAccess d; return d.get_ArrayData(); }
	Array* PlatformArrayShared(Int32 v) { DotnetLibrarySupport::DataAccess d; *(Int32*) d.get_ArrayData()->Address(2) = v; return d.get_ArrayData(); }
	Int32 PlatformArrayKept(Int32 v) { DotnetLibrarySupport::DataAccess d; Array* a = d.get_ArrayData(); *(Int32*) a->Address(1) = v; delete a; return *(Int32*) d.get_ArrayData()->Address(1); }
	Double PlatformDouble() { DotnetLibrarySupport::DataAccess d; return d.get_DoubleData(); }
	void GrantedInPool(UInt64 n) { Keeps k; k.n = n; k.p = nullptr; k.Run(); k.Run(); }
	void GrantedInPoolAfterFailure(UInt64 n, Char c) { Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); Keeps k; k.n = n; k.p = nullptr; k.Run(); }
}
