// The text of floating point numbers: see spec/float_text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	String* FloatTextDouble(Double v) { DoubleValue x(v); return x.ToString(); }
	String* FloatTextSingle(Single v) { SingleValue x(v); return x.ToString(); }
	StringBuilder* FloatAppendDouble(Double v) { StringBuilder* b = new StringBuilder(new String(L">")); return b->Append(v); }
	StringBuilder* FloatAppendSingle(Single v) { StringBuilder* b = new StringBuilder(new String(L">")); return b->Append(v); }
	StringBuilder* FloatInsertDouble(Double v) { StringBuilder* b = new StringBuilder(new String(L"<>")); return b->Insert(1, v); }
	StringBuilder* FloatInsertSingle(Single v) { StringBuilder* b = new StringBuilder(new String(L"<>")); return b->Insert(1, v); }
	Double FloatBackDouble(Double v) { DoubleValue x(v); return DoubleValue::Parse(x.ToString()); }
	Single FloatBackSingle(Single v) { SingleValue x(v); return SingleValue::Parse(x.ToString()); }
}
