#!/usr/bin/env python3
"""Exceptions and the run of translated programs: harness functions (never executed) and what .NET defines for them."""
import os
# class -> base classes as .NET defines them, as far as the library has them
BASES = {"Exception": [], "IndexOutOfRangeException": [], "ArgumentException": [], "ArithmeticException": [], "RankException": [], "NotImplementedException": [],
         "InvalidCastException": [], "InvalidOperationException": [], "FormatException": [], "ArgumentNullException": ["ArgumentException"],
         "ArgumentOutOfRangeException": ["ArgumentException"], "ThrowMinMaxException": ["ArgumentException"], "OverflowException": ["ArithmeticException"],
         "DivideByZeroException": ["ArithmeticException"]}
NAMES = sorted(BASES)
E, R = [], []     # (return type, name, parameters, body, cases)


def fn(out, ret, name, params, body, *cases):
    if out is E and params:
        cases = [c.replace("always", "if $1 >= 1") for c in cases]
    out.append((ret, name, params, body, cases))


TY = {"Char": "wchar_t", "UInt64": "unsigned long", "Int32": "int"}
for x in NAMES:
    for y in NAMES:
        is_a = y == "Exception" or x == y or y in BASES[x]
        if y == "Exception":
            body = "try { throw new %s(); } catch (Exception* e) { return 1; } catch (...) { return 3; }" % x
        else:
            body = "try { throw new %s(); } catch (%s* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; }" % (x, y)
        fn(E, "Int32", "Catch_%s_as_%s" % (x, y), [], body, "always => returns, ret == %d" % (1 if is_a else 2))
    if x != "Exception":
        fn(E, "String*", "Message_" + x, [], "Exception* e = new %s(); return e->get_Message();" % x, "always => returns, ret is not null, ret.length >= 1")
    fn(E, "Exception*", "Inner_" + x, [], "Exception* e = new %s(); return e->get_InnerException();" % x, "always => returns, ret is null")
    fn(E, "Boolean", "Base_" + x, [], "Exception* e = new %s(); return e->GetBaseException() == e;" % x, "always => returns, ret == 1")
    fn(E, "Boolean", "Cause_" + x, [("Char", "c")], "Char t[] = { c, 0 }; Exception* c0 = new %s(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); "
       "return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0;" % x, "always => returns, ret == 1")
fn(E, "String*", "Message_none", [], "Exception* e = new Exception(); return e->get_Message();", "always => returns, ret is null")
for x in ("Exception", "ArgumentException", "ArithmeticException"):
    fn(E, "String*", "Text_" + x, [("Char", "c")], "Char t[] = { c, 0 }; Exception* e = new %s(new String(t, 0, 1)); return e->get_Message();" % x, "if $1 >= 1 => returns, ret.length == 1, ret[0] == $1")
    fn(E, "Exception*", "TextInner_" + x, [("Char", "c")], "Char t[] = { c, 0 }; Exception* e = new %s(new String(t, 0, 1)); return e->get_InnerException();" % x, "always => returns, ret is null")
    fn(E, "Boolean", "Same_" + x, [("Char", "c")], "Char t[] = { c, 0 }; String* s = new String(t, 0, 1); return (new %s(s))->get_Message() == s;" % x, "always => returns, ret == 1")
    fn(E, "Boolean", "Null_" + x, [], "return (new %s((String*) nullptr))->get_Message() == nullptr;" % x, "always => returns, ret == 1")
fn(E, "String*", "TextOfCause", [("Char", "c")], "Char t[] = { c, 0 }; Exception* e = new Exception(new String(t, 0, 1), new RankException()); return e->get_Message();", "if $1 >= 1 => returns, ret.length == 1, ret[0] == $1")
fn(E, "Boolean", "NoCause", [], "Exception* e = new Exception(new String(L\"x\"), nullptr); return e->get_InnerException() == nullptr && e->GetBaseException() == e;", "always => returns, ret == 1")
fn(E, "String*", "Caught", [("Char", "c")], "Char t[] = { c, 0 }; try { throw new ArgumentException(new String(t, 0, 1)); } catch (ArgumentException* e) { return e->get_Message(); }", "if $1 >= 1 => returns, ret.length == 1, ret[0] == $1")
fn(E, "Boolean", "CaughtSame", [], "Exception* e = new OverflowException(); try { throw e; } catch (Exception* f) { return e == f; }", "always => returns, ret == 1")

PRE = """
char* volatile none;
struct Quiet : public DotnetLibrarySupport::TranslatorSupport { };
struct Keeps : public DotnetLibrarySupport::TranslatorSupport { uint64_t n; char* p; virtual void RunCode() { p = (char*) my_operator_new_replacement(n); my_operator_delete_replacement(p); if (p != nullptr && n > 0) p[n - 1] = 1; } };
struct Twice : public DotnetLibrarySupport::TranslatorSupport { uint64_t n; int k; char* p[2]; virtual void RunCode() { p[k++] = (char*) my_operator_new_replacement(n); } };
struct Counts : public DotnetLibrarySupport::TranslatorSupport { int k; virtual void RunCode() { ++k; } };
struct Fails : public DotnetLibrarySupport::TranslatorSupport { int k; Exception* (*make)(Char); Char c; virtual void RunCode() { ++k; throw make(c); } };
struct Sends : public DotnetLibrarySupport::TranslatorSupport { Char c, d; virtual void RunCode() { Char t[] = { c, d, 0 }; Send(new String(t, 0, 2)); } };
static Exception* withText(Char c) { Char t[] = { c, 0 }; return new Exception(new String(t, 0, 1)); }
static Exception* withArgument(Char c) { Char t[] = { c, 0 }; return new ArgumentException(new String(t, 0, 1)); }
static Exception* withCause(Char c) { Char t[] = { c, 0 }; return new Exception(new String(t, 0, 1), new RankException()); }
static Exception* without(Char c) { return new Exception(); }
extern "C" { Char* absint_printed; int absint_prints; }
"""
for x in NAMES:
    if x != "Exception":
        PRE += "static Exception* make_%s(Char c) { return new %s(); }\n" % (x, x)
fn(R, "Int32", "Runs", [], "Counts c; c.k = 0; c.Run(); return c.k;", "always => returns, ret == 1")
fn(R, "Int32", "RunsAgain", [], "Counts c; c.k = 0; c.Run(); c.Run(); return c.k;", "always => returns, ret == 2")
fn(R, "Int32", "RunsQuiet", [], "absint_prints = 0; Quiet q; q.Run(); return absint_prints;", "always => returns, ret == 0")
fn(R, "Int32", "AfterFailure", [("Char", "c")], "Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); f.Run(); Counts g; g.k = 0; g.Run(); return f.k * 10 + g.k;", "always => returns, ret == 21")
for m in ("withText", "withArgument", "withCause"):
    fn(R, "Boolean", "Reports_" + m, [("Char", "c")], "absint_printed = nullptr; Fails f; f.k = 0; f.make = %s; f.c = c; f.Run(); return absint_printed != nullptr && absint_printed[0] == c && absint_printed[1] == 0;" % m, "if $1 >= 1 => returns, ret == 1")
    fn(R, "Int32", "ReportsOnce_" + m, [("Char", "c")], "absint_prints = 0; Fails f; f.k = 0; f.make = %s; f.c = c; f.Run(); return absint_prints;" % m, "always => returns, ret == 1")
fn(R, "Int32", "ReportsNoText", [("Char", "c")], "absint_prints = 0; absint_printed = nullptr; Fails f; f.k = 0; f.make = without; f.c = c; f.Run(); return absint_printed == nullptr ? absint_prints : -1;", "always => returns, ret == 1")
for x in NAMES:
    if x != "Exception":
        fn(R, "Boolean", "ReportsThe_" + x, [("Char", "c")], "absint_printed = nullptr; Fails f; f.k = 0; f.make = make_%s; f.c = c; f.Run(); return absint_printed != nullptr && *absint_printed != 0;" % x, "always => returns, ret == 1")
fn(R, "Boolean", "Sent", [("Char", "c"), ("Char", "d")], "absint_printed = nullptr; Sends f; f.c = c; f.d = d; f.Run(); return absint_printed != nullptr && absint_printed[0] == c && absint_printed[1] == d && absint_printed[2] == 0;", "if $1 >= 1, $2 >= 1 => returns, ret == 1")
fn(R, "Int32", "SentNothing", [], "absint_prints = 0; absint_printed = nullptr; Quiet q; q.Send(nullptr); return absint_printed == nullptr ? absint_prints : -1;", "always => returns, ret == 1")
fn(R, "Int32", "SameMemory", [("UInt64", "n")], "Twice t; t.n = n; t.k = 0; t.Run(); t.Run(); return t.k == 2 && t.p[0] == t.p[1];", "if $1 <= 32760 => returns, ret == 1")
fn(R, "Int32", "SameMemoryAfterFailure", [("UInt64", "n"), ("Char", "c")], "Twice t; t.n = n; t.k = 0; t.Run(); Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); t.Run(); return t.k == 2 && t.p[0] == t.p[1];", "if $1 <= 32000 => returns, ret == 1")
fn(R, "Array*", "PlatformArray", [], "DotnetLibrarySupport::DataAccess d; return d.get_ArrayData();", "always => returns, ret is not null, ret.type == 8, ret.rank == 1, ret.total == 4, ret[0] == 1, ret[1] == 2, ret[2] == 3, ret[3] == 4")
fn(R, "Array*", "PlatformArrayShared", [("Int32", "v")], "DotnetLibrarySupport::DataAccess d; *(Int32*) d.get_ArrayData()->Address(2) = v; return d.get_ArrayData();", "always => returns, ret.total == 4, ret[0] == 1, ret[1] == 2, ret[2] == $1, ret[3] == 4")
fn(R, "Int32", "PlatformArrayKept", [("Int32", "v")], "DotnetLibrarySupport::DataAccess d; Array* a = d.get_ArrayData(); *(Int32*) a->Address(1) = v; delete a; return *(Int32*) d.get_ArrayData()->Address(1);", "always => returns, ret == $1")
fn(R, "Double", "PlatformDouble", [], "DotnetLibrarySupport::DataAccess d; return d.get_DoubleData();", "always => returns, ret == 5.5")
# analysed for memory safety only
fn(R, "void", "GrantedInPool", [("UInt64", "n")], "Keeps k; k.n = n; k.p = nullptr; k.Run(); k.Run();")
fn(R, "void", "GrantedInPoolAfterFailure", [("UInt64", "n"), ("Char", "c")], "Fails f; f.k = 0; f.make = withText; f.c = c; f.Run(); Keeps k; k.n = n; k.p = nullptr; k.Run();")


def spec(which):
    ns, l = ("Laws", E) if which == "except" else ("Pool", R)
    out = []
    for ret, name, params, body, cases in l:
        if cases:
            out.append("fn %s::%s(%s)" % (ns, name, ",".join(TY[t] for t, _ in params)))
            out += cases
    return out


if __name__ == "__main__":
    for ns, l, pre, f in (("Laws", E, "", "except"), ("Pool", R, PRE, "run")):
        o = ["// Written by gen_except.py. Never executed: analysed together with the library by absint against spec/%s.py." % f,
             '#include "DotnetTypes.h"'] + (['#include "DotNetLibrarySupport.h"'] if pre else []) + ["using namespace DotnetLibrary;"] + ([pre] if pre else []) + ["namespace " + ns, "{"]
        o += ["\t%s %s(%s) { %s }" % (r, n, ", ".join("%s %s" % p for p in ps), b) for r, n, ps, b, _ in l]
        open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f + ".cpp"), "w").write("\n".join(o + ["}"]) + "\n")
