// The text of a date: see spec/date_text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	String* DateText(UInt64 ticks) { DateTimeValue d((DateTime(ticks))); return d.ToString(); }
	StringBuilder* DateAppended(UInt64 ticks) { DateTimeValue d((DateTime(ticks))); StringBuilder* b = new StringBuilder(new String(L">")); Object* o = &d; return b->Append(o); }
}
