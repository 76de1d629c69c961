// Written by gen_except.py. Never executed: analysed together with the library by absint against spec/except.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	Int32 Catch_ArgumentException_as_ArgumentException() { try { throw new ArgumentException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_ArgumentNullException() { try { throw new ArgumentException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_ArgumentOutOfRangeException() { try { throw new ArgumentException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_ArithmeticException() { try { throw new ArgumentException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_DivideByZeroException() { try { throw new ArgumentException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_Exception() { try { throw new ArgumentException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_FormatException() { try { throw new ArgumentException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_IndexOutOfRangeException() { try { throw new ArgumentException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_InvalidCastException() { try { throw new ArgumentException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_InvalidOperationException() { try { throw new ArgumentException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_NotImplementedException() { try { throw new ArgumentException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_OverflowException() { try { throw new ArgumentException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_RankException() { try { throw new ArgumentException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentException_as_ThrowMinMaxException() { try { throw new ArgumentException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_ArgumentException() { Exception* e = new ArgumentException(); return e->get_Message(); }
	Exception* Inner_ArgumentException() { Exception* e = new ArgumentException(); return e->get_InnerException(); }
	Boolean Base_ArgumentException() { Exception* e = new ArgumentException(); return e->GetBaseException() == e; }
	Boolean Cause_ArgumentException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new ArgumentException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_ArgumentNullException_as_ArgumentException() { try { throw new ArgumentNullException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_ArgumentNullException() { try { throw new ArgumentNullException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_ArgumentOutOfRangeException() { try { throw new ArgumentNullException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_ArithmeticException() { try { throw new ArgumentNullException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_DivideByZeroException() { try { throw new ArgumentNullException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_Exception() { try { throw new ArgumentNullException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_FormatException() { try { throw new ArgumentNullException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_IndexOutOfRangeException() { try { throw new ArgumentNullException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_InvalidCastException() { try { throw new ArgumentNullException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_InvalidOperationException() { try { throw new ArgumentNullException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_NotImplementedException() { try { throw new ArgumentNullException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_OverflowException() { try { throw new ArgumentNullException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_RankException() { try { throw new ArgumentNullException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentNullException_as_ThrowMinMaxException() { try { throw new ArgumentNullException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_ArgumentNullException() { Exception* e = new ArgumentNullException(); return e->get_Message(); }
	Exception* Inner_ArgumentNullException() { Exception* e = new ArgumentNullException(); return e->get_InnerException(); }
	Boolean Base_ArgumentNullException() { Exception* e = new ArgumentNullException(); return e->GetBaseException() == e; }
	Boolean Cause_ArgumentNullException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new ArgumentNullException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_ArgumentOutOfRangeException_as_ArgumentException() { try { throw new ArgumentOutOfRangeException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_ArgumentNullException() { try { throw new ArgumentOutOfRangeException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_ArgumentOutOfRangeException() { try { throw new ArgumentOutOfRangeException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_ArithmeticException() { try { throw new ArgumentOutOfRangeException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_DivideByZeroException() { try { throw new ArgumentOutOfRangeException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_Exception() { try { throw new ArgumentOutOfRangeException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_FormatException() { try { throw new ArgumentOutOfRangeException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_IndexOutOfRangeException() { try { throw new ArgumentOutOfRangeException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_InvalidCastException() { try { throw new ArgumentOutOfRangeException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_InvalidOperationException() { try { throw new ArgumentOutOfRangeException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_NotImplementedException() { try { throw new ArgumentOutOfRangeException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_OverflowException() { try { throw new ArgumentOutOfRangeException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_RankException() { try { throw new ArgumentOutOfRangeException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArgumentOutOfRangeException_as_ThrowMinMaxException() { try { throw new ArgumentOutOfRangeException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_ArgumentOutOfRangeException() { Exception* e = new ArgumentOutOfRangeException(); return e->get_Message(); }
	Exception* Inner_ArgumentOutOfRangeException() { Exception* e = new ArgumentOutOfRangeException(); return e->get_InnerException(); }
	Boolean Base_ArgumentOutOfRangeException() { Exception* e = new ArgumentOutOfRangeException(); return e->GetBaseException() == e; }
	Boolean Cause_ArgumentOutOfRangeException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new ArgumentOutOfRangeException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_ArithmeticException_as_ArgumentException() { try { throw new ArithmeticException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_ArgumentNullException() { try { throw new ArithmeticException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_ArgumentOutOfRangeException() { try { throw new ArithmeticException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_ArithmeticException() { try { throw new ArithmeticException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_DivideByZeroException() { try { throw new ArithmeticException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_Exception() { try { throw new ArithmeticException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_FormatException() { try { throw new ArithmeticException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_IndexOutOfRangeException() { try { throw new ArithmeticException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_InvalidCastException() { try { throw new ArithmeticException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_InvalidOperationException() { try { throw new ArithmeticException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_NotImplementedException() { try { throw new ArithmeticException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_OverflowException() { try { throw new ArithmeticException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_RankException() { try { throw new ArithmeticException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ArithmeticException_as_ThrowMinMaxException() { try { throw new ArithmeticException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_ArithmeticException() { Exception* e = new ArithmeticException(); return e->get_Message(); }
	Exception* Inner_ArithmeticException() { Exception* e = new ArithmeticException(); return e->get_InnerException(); }
	Boolean Base_ArithmeticException() { Exception* e = new ArithmeticException(); return e->GetBaseException() == e; }
	Boolean Cause_ArithmeticException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new ArithmeticException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_DivideByZeroException_as_ArgumentException() { try { throw new DivideByZeroException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_ArgumentNullException() { try { throw new DivideByZeroException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_ArgumentOutOfRangeException() { try { throw new DivideByZeroException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_ArithmeticException() { try { throw new DivideByZeroException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_DivideByZeroException() { try { throw new DivideByZeroException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_Exception() { try { throw new DivideByZeroException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_FormatException() { try { throw new DivideByZeroException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_IndexOutOfRangeException() { try { throw new DivideByZeroException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_InvalidCastException() { try { throw new DivideByZeroException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_InvalidOperationException() { try { throw new DivideByZeroException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_NotImplementedException() { try { throw new DivideByZeroException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_OverflowException() { try { throw new DivideByZeroException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_RankException() { try { throw new DivideByZeroException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_DivideByZeroException_as_ThrowMinMaxException() { try { throw new DivideByZeroException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_DivideByZeroException() { Exception* e = new DivideByZeroException(); return e->get_Message(); }
	Exception* Inner_DivideByZeroException() { Exception* e = new DivideByZeroException(); return e->get_InnerException(); }
	Boolean Base_DivideByZeroException() { Exception* e = new DivideByZeroException(); return e->GetBaseException() == e; }
	Boolean Cause_DivideByZeroException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new DivideByZeroException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_Exception_as_ArgumentException() { try { throw new Exception(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_ArgumentNullException() { try { throw new Exception(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_ArgumentOutOfRangeException() { try { throw new Exception(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_ArithmeticException() { try { throw new Exception(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_DivideByZeroException() { try { throw new Exception(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_Exception() { try { throw new Exception(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_FormatException() { try { throw new Exception(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_IndexOutOfRangeException() { try { throw new Exception(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_InvalidCastException() { try { throw new Exception(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_InvalidOperationException() { try { throw new Exception(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_NotImplementedException() { try { throw new Exception(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_OverflowException() { try { throw new Exception(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_RankException() { try { throw new Exception(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_Exception_as_ThrowMinMaxException() { try { throw new Exception(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Exception* Inner_Exception() { Exception* e = new Exception(); return e->get_InnerException(); }
	Boolean Base_Exception() { Exception* e = new Exception(); return e->GetBaseException() == e; }
	Boolean Cause_Exception(Char c) { Char t[] = { c, 0 }; Exception* c0 = new Exception(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_FormatException_as_ArgumentException() { try { throw new FormatException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_ArgumentNullException() { try { throw new FormatException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_ArgumentOutOfRangeException() { try { throw new FormatException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_ArithmeticException() { try { throw new FormatException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_DivideByZeroException() { try { throw new FormatException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_Exception() { try { throw new FormatException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_FormatException() { try { throw new FormatException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_IndexOutOfRangeException() { try { throw new FormatException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_InvalidCastException() { try { throw new FormatException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_InvalidOperationException() { try { throw new FormatException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_NotImplementedException() { try { throw new FormatException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_OverflowException() { try { throw new FormatException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_RankException() { try { throw new FormatException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_FormatException_as_ThrowMinMaxException() { try { throw new FormatException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_FormatException() { Exception* e = new FormatException(); return e->get_Message(); }
	Exception* Inner_FormatException() { Exception* e = new FormatException(); return e->get_InnerException(); }
	Boolean Base_FormatException() { Exception* e = new FormatException(); return e->GetBaseException() == e; }
	Boolean Cause_FormatException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new FormatException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_IndexOutOfRangeException_as_ArgumentException() { try { throw new IndexOutOfRangeException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_ArgumentNullException() { try { throw new IndexOutOfRangeException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_ArgumentOutOfRangeException() { try { throw new IndexOutOfRangeException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_ArithmeticException() { try { throw new IndexOutOfRangeException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_DivideByZeroException() { try { throw new IndexOutOfRangeException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_Exception() { try { throw new IndexOutOfRangeException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_FormatException() { try { throw new IndexOutOfRangeException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_IndexOutOfRangeException() { try { throw new IndexOutOfRangeException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_InvalidCastException() { try { throw new IndexOutOfRangeException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_InvalidOperationException() { try { throw new IndexOutOfRangeException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_NotImplementedException() { try { throw new IndexOutOfRangeException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_OverflowException() { try { throw new IndexOutOfRangeException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_RankException() { try { throw new IndexOutOfRangeException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_IndexOutOfRangeException_as_ThrowMinMaxException() { try { throw new IndexOutOfRangeException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_IndexOutOfRangeException() { Exception* e = new IndexOutOfRangeException(); return e->get_Message(); }
	Exception* Inner_IndexOutOfRangeException() { Exception* e = new IndexOutOfRangeException(); return e->get_InnerException(); }
	Boolean Base_IndexOutOfRangeException() { Exception* e = new IndexOutOfRangeException(); return e->GetBaseException() == e; }
	Boolean Cause_IndexOutOfRangeException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new IndexOutOfRangeException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_InvalidCastException_as_ArgumentException() { try { throw new InvalidCastException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_ArgumentNullException() { try { throw new InvalidCastException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_ArgumentOutOfRangeException() { try { throw new InvalidCastException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_ArithmeticException() { try { throw new InvalidCastException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_DivideByZeroException() { try { throw new InvalidCastException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_Exception() { try { throw new InvalidCastException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_FormatException() { try { throw new InvalidCastException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_IndexOutOfRangeException() { try { throw new InvalidCastException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_InvalidCastException() { try { throw new InvalidCastException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_InvalidOperationException() { try { throw new InvalidCastException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_NotImplementedException() { try { throw new InvalidCastException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_OverflowException() { try { throw new InvalidCastException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_RankException() { try { throw new InvalidCastException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidCastException_as_ThrowMinMaxException() { try { throw new InvalidCastException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_InvalidCastException() { Exception* e = new InvalidCastException(); return e->get_Message(); }
	Exception* Inner_InvalidCastException() { Exception* e = new InvalidCastException(); return e->get_InnerException(); }
	Boolean Base_InvalidCastException() { Exception* e = new InvalidCastException(); return e->GetBaseException() == e; }
	Boolean Cause_InvalidCastException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new InvalidCastException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_InvalidOperationException_as_ArgumentException() { try { throw new InvalidOperationException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_ArgumentNullException() { try { throw new InvalidOperationException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_ArgumentOutOfRangeException() { try { throw new InvalidOperationException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_ArithmeticException() { try { throw new InvalidOperationException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_DivideByZeroException() { try { throw new InvalidOperationException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_Exception() { try { throw new InvalidOperationException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_FormatException() { try { throw new InvalidOperationException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_IndexOutOfRangeException() { try { throw new InvalidOperationException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_InvalidCastException() { try { throw new InvalidOperationException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_InvalidOperationException() { try { throw new InvalidOperationException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_NotImplementedException() { try { throw new InvalidOperationException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_OverflowException() { try { throw new InvalidOperationException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_RankException() { try { throw new InvalidOperationException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_InvalidOperationException_as_ThrowMinMaxException() { try { throw new InvalidOperationException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_InvalidOperationException() { Exception* e = new InvalidOperationException(); return e->get_Message(); }
	Exception* Inner_InvalidOperationException() { Exception* e = new InvalidOperationException(); return e->get_InnerException(); }
	Boolean Base_InvalidOperationException() { Exception* e = new InvalidOperationException(); return e->GetBaseException() == e; }
	Boolean Cause_InvalidOperationException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new InvalidOperationException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_NotImplementedException_as_ArgumentException() { try { throw new NotImplementedException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_ArgumentNullException() { try { throw new NotImplementedException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_ArgumentOutOfRangeException() { try { throw new NotImplementedException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_ArithmeticException() { try { throw new NotImplementedException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_DivideByZeroException() { try { throw new NotImplementedException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_Exception() { try { throw new NotImplementedException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_FormatException() { try { throw new NotImplementedException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_IndexOutOfRangeException() { try { throw new NotImplementedException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_InvalidCastException() { try { throw new NotImplementedException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_InvalidOperationException() { try { throw new NotImplementedException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_NotImplementedException() { try { throw new NotImplementedException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_OverflowException() { try { throw new NotImplementedException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_RankException() { try { throw new NotImplementedException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_NotImplementedException_as_ThrowMinMaxException() { try { throw new NotImplementedException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_NotImplementedException() { Exception* e = new NotImplementedException(); return e->get_Message(); }
	Exception* Inner_NotImplementedException() { Exception* e = new NotImplementedException(); return e->get_InnerException(); }
	Boolean Base_NotImplementedException() { Exception* e = new NotImplementedException(); return e->GetBaseException() == e; }
	Boolean Cause_NotImplementedException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new NotImplementedException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_OverflowException_as_ArgumentException() { try { throw new OverflowException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_ArgumentNullException() { try { throw new OverflowException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_ArgumentOutOfRangeException() { try { throw new OverflowException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_ArithmeticException() { try { throw new OverflowException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_DivideByZeroException() { try { throw new OverflowException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_Exception() { try { throw new OverflowException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_FormatException() { try { throw new OverflowException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_IndexOutOfRangeException() { try { throw new OverflowException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_InvalidCastException() { try { throw new OverflowException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_InvalidOperationException() { try { throw new OverflowException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_NotImplementedException() { try { throw new OverflowException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_OverflowException() { try { throw new OverflowException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_RankException() { try { throw new OverflowException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_OverflowException_as_ThrowMinMaxException() { try { throw new OverflowException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_OverflowException() { Exception* e = new OverflowException(); return e->get_Message(); }
	Exception* Inner_OverflowException() { Exception* e = new OverflowException(); return e->get_InnerException(); }
	Boolean Base_OverflowException() { Exception* e = new OverflowException(); return e->GetBaseException() == e; }
	Boolean Cause_OverflowException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new OverflowException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_RankException_as_ArgumentException() { try { throw new RankException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_ArgumentNullException() { try { throw new RankException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_ArgumentOutOfRangeException() { try { throw new RankException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_ArithmeticException() { try { throw new RankException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_DivideByZeroException() { try { throw new RankException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_Exception() { try { throw new RankException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_FormatException() { try { throw new RankException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_IndexOutOfRangeException() { try { throw new RankException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_InvalidCastException() { try { throw new RankException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_InvalidOperationException() { try { throw new RankException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_NotImplementedException() { try { throw new RankException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_OverflowException() { try { throw new RankException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_RankException() { try { throw new RankException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_RankException_as_ThrowMinMaxException() { try { throw new RankException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_RankException() { Exception* e = new RankException(); return e->get_Message(); }
	Exception* Inner_RankException() { Exception* e = new RankException(); return e->get_InnerException(); }
	Boolean Base_RankException() { Exception* e = new RankException(); return e->GetBaseException() == e; }
	Boolean Cause_RankException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new RankException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	Int32 Catch_ThrowMinMaxException_as_ArgumentException() { try { throw new ThrowMinMaxException(); } catch (ArgumentException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_ArgumentNullException() { try { throw new ThrowMinMaxException(); } catch (ArgumentNullException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_ArgumentOutOfRangeException() { try { throw new ThrowMinMaxException(); } catch (ArgumentOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_ArithmeticException() { try { throw new ThrowMinMaxException(); } catch (ArithmeticException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_DivideByZeroException() { try { throw new ThrowMinMaxException(); } catch (DivideByZeroException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_Exception() { try { throw new ThrowMinMaxException(); } catch (Exception* e) { return 1; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_FormatException() { try { throw new ThrowMinMaxException(); } catch (FormatException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_IndexOutOfRangeException() { try { throw new ThrowMinMaxException(); } catch (IndexOutOfRangeException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_InvalidCastException() { try { throw new ThrowMinMaxException(); } catch (InvalidCastException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_InvalidOperationException() { try { throw new ThrowMinMaxException(); } catch (InvalidOperationException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_NotImplementedException() { try { throw new ThrowMinMaxException(); } catch (NotImplementedException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_OverflowException() { try { throw new ThrowMinMaxException(); } catch (OverflowException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_RankException() { try { throw new ThrowMinMaxException(); } catch (RankException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	Int32 Catch_ThrowMinMaxException_as_ThrowMinMaxException() { try { throw new ThrowMinMaxException(); } catch (ThrowMinMaxException* e) { return 1; } catch (Exception* e) { return 2; } catch (...) { return 3; } }
	String* Message_ThrowMinMaxException() { Exception* e = new ThrowMinMaxException(); return e->get_Message(); }
	Exception* Inner_ThrowMinMaxException() { Exception* e = new ThrowMinMaxException(); return e->get_InnerException(); }
	Boolean Base_ThrowMinMaxException() { Exception* e = new ThrowMinMaxException(); return e->GetBaseException() == e; }
	Boolean Cause_ThrowMinMaxException(Char c) { Char t[] = { c, 0 }; Exception* c0 = new ThrowMinMaxException(); Exception* e = new Exception(new String(t, 0, 1), c0); Exception* f = new Exception(new String(t, 0, 1), e); return e->get_InnerException() == c0 && f->get_InnerException() == e && e->GetBaseException() == c0 && f->GetBaseException() == c0 && c0->GetBaseException() == c0; }
	String* Message_none() { Exception* e = new Exception(); return e->get_Message(); }
	String* Text_Exception(Char c) { Char t[] = { c, 0 }; Exception* e = new Exception(new String(t, 0, 1)); return e->get_Message(); }
	Exception* TextInner_Exception(Char c) { Char t[] = { c, 0 }; Exception* e = new Exception(new String(t, 0, 1)); return e->get_InnerException(); }
	Boolean Same_Exception(Char c) { Char t[] = { c, 0 }; String* s = new String(t, 0, 1); return (new Exception(s))->get_Message() == s; }
	Boolean Null_Exception() { return (new Exception((String*) nullptr))->get_Message() == nullptr; }
	String* Text_ArgumentException(Char c) { Char t[] = { c, 0 }; Exception* e = new ArgumentException(new String(t, 0, 1)); return e->get_Message(); }
	Exception* TextInner_ArgumentException(Char c) { Char t[] = { c, 0 }; Exception* e = new ArgumentException(new String(t, 0, 1)); return e->get_InnerException(); }
	Boolean Same_ArgumentException(Char c) { Char t[] = { c, 0 }; String* s = new String(t, 0, 1); return (new ArgumentException(s))->get_Message() == s; }
	Boolean Null_ArgumentException() { return (new ArgumentException((String*) nullptr))->get_Message() == nullptr; }
	String* Text_ArithmeticException(Char c) { Char t[] = { c, 0 }; Exception* e = new ArithmeticException(new String(t, 0, 1)); return e->get_Message(); }
	Exception* TextInner_ArithmeticException(Char c) { Char t[] = { c, 0 }; Exception* e = new ArithmeticException(new String(t, 0, 1)); return e->get_InnerException(); }
	Boolean Same_ArithmeticException(Char c) { Char t[] = { c, 0 }; String* s = new String(t, 0, 1); return (new ArithmeticException(s))->get_Message() == s; }
	Boolean Null_ArithmeticException() { return (new ArithmeticException((String*) nullptr))->get_Message() == nullptr; }
	String* TextOfCause(Char c) { Char t[] = { c, 0 }; Exception* e = new Exception(new String(t, 0, 1), new RankException()); return e->get_Message(); }
	Boolean NoCause() { Exception* e = new Exception(new String(L"x"), nullptr); return e->get_InnerException() == nullptr && e->GetBaseException() == e; }
	String* Caught(Char c) { Char t[] = { c, 0 }; try { throw new ArgumentException(new String(t, 0, 1)); } catch (ArgumentException* e) { return e->get_Message(); } }
	Boolean CaughtSame() { Exception* e = new OverflowException(); try { throw e; } catch (Exception* f) { return e == f; } }
}
