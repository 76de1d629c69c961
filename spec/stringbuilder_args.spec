# String builders: which arguments are accepted, and how length and capacity change
fn StringBuilder::StringBuilder()
always => returns, this'.len == 0, this'.cap >= 1, this'.cap <= this'.max, this'.max == 2147483647
fn StringBuilder::StringBuilder(int)
if $1 < 0 => throws ArgumentOutOfRangeException
if $1 >= 1, $1 <= 500000000 => returns, this'.len == 0, this'.cap >= $1, this'.max == 2147483647
if $1 == 0 => returns, this'.len == 0, this'.cap >= 1
fn StringBuilder::StringBuilder(int, int)
if $1 > $2 => throws ArgumentOutOfRangeException
if $2 < 1 => throws ArgumentOutOfRangeException
if $1 < 0 => throws ArgumentOutOfRangeException
if $1 >= 0, $2 >= 1, $1 <= $2, $1 <= 500000000 => returns, this'.len == 0, this'.cap >= $1, this'.cap <= $2, this'.max == $2
fn StringBuilder::StringBuilder(String*, int)
if $2 < 0 => throws ArgumentOutOfRangeException
if $1 is null, $2 >= 0, $2 <= 500000000 => returns, this'.len == 0, this'.cap >= $2
if $1 is not null, $2 >= 0, $2 <= 500000000, $1.length <= 500000000 => returns, this'.len == $1.length, this'.cap >= $2, this'.cap >= $1.length
fn StringBuilder::StringBuilder(String*, int, int, int)
if $4 < 0 => throws ArgumentOutOfRangeException
if $3 < 0 => throws ArgumentOutOfRangeException
if $2 < 0 => throws ArgumentOutOfRangeException
if $2 + $3 > $1.length => throws ArgumentOutOfRangeException
if $1 is null, $2 + $3 > 0, $2 >= 0, $3 >= 0 => throws ArgumentOutOfRangeException
if $2 >= 0, $3 >= 0, $4 >= 0, $2 + $3 <= $1.length, $4 <= 500000000, $3 <= 500000000 => returns, this'.len == $3, this'.cap >= $4, this'.cap >= $3
fn StringBuilder::get_Length()
always => returns, ret == this.len, this'.len == this.len
fn StringBuilder::get_Capacity()
always => returns, ret == this.cap, this'.cap == this.cap
fn StringBuilder::get_MaxCapacity()
always => returns, ret == this.max, this'.max == this.max
fn StringBuilder::set_Length(int)
if $1 < 0 => throws ArgumentOutOfRangeException
if $1 > this.max => throws ArgumentOutOfRangeException
if $1 >= 0, $1 <= this.max, $1 <= 500000000 => returns, this'.len == $1, this'.cap >= $1, this'.cap <= this'.max, this'.cap >= this.cap, this'.max == this.max
if $1 >= 0, $1 <= this.cap => returns, this'.len == $1, this'.cap == this.cap
fn StringBuilder::set_Capacity(int)
if $1 < this.len => throws ArgumentOutOfRangeException
if $1 < 0 => throws ArgumentOutOfRangeException
if $1 > this.max => throws ArgumentOutOfRangeException
if $1 >= this.cap, $1 <= this.max, $1 <= 500000000 => returns, this'.cap >= $1, this'.cap <= this.max, this'.len == this.len, this'.max == this.max
if $1 == this.cap => returns, this'.cap == this.cap, this'.len == this.len
fn StringBuilder::EnsureCapacity(int)
if $1 < 0 => throws ArgumentOutOfRangeException
if $1 > this.max => throws ArgumentOutOfRangeException
if $1 >= 0, $1 <= this.cap => returns, ret == this.cap, this'.cap == this.cap
if $1 > this.cap, $1 <= this.max, $1 <= 500000000 => returns, ret >= $1, ret == this'.cap, this'.len == this.len, this'.cap <= this.max
fn StringBuilder::get_Chars(int)
if $1 < 0 => throws IndexOutOfRangeException
if $1 >= this.len => throws IndexOutOfRangeException
if $1 >= 0, $1 < this.len => returns, this'.len == this.len
fn StringBuilder::set_Chars(int, wchar_t)
if $1 < 0 => throws IndexOutOfRangeException
if $1 >= this.len => throws IndexOutOfRangeException
if $1 >= 0, $1 < this.len => returns, this'.len == this.len, this'.cap == this.cap
fn StringBuilder::Address(int, int, int)
if $1 < 0 => throws IndexOutOfRangeException
if $1 >= this.len => throws IndexOutOfRangeException
if $1 >= 0, $1 < this.len => returns, ret.offset == 4 * $1 | ret.offset == 4 * $1 + 8
fn StringBuilder::ToString()
if this.len <= 500000000 => returns, ret.length == this.len
fn StringBuilder::ToString(int, int)
if $1 < 0 => throws
if $2 < 0 => throws
if $1 + $2 > this.len => throws
if $1 >= 0, $2 >= 0, $1 + $2 <= this.len, $2 <= 500000000 => returns, ret.length == $2, this'.len == this.len
fn StringBuilder::FormatString(wchar_t*, int)
if $2 <= this.len => throws
if $2 > this.len => returns, ret == this.len
fn StringBuilder::Append(Array*, int, int)
if $1 is null => returns, ret is this, this'.len == this.len
if $1 is not null, $3 == 0 => returns, ret is this, this'.len == this.len
if $1.type != 3, $3 > 0 => throws
if $1.rank != 1, $3 > 0 => throws
if $2 >= 0, $3 > 0, $2 + $3 > $1.total => throws
if $2 < 0, $3 > $1.total => throws
if $1 is not null, $3 > 0, this.len + $3 > this.max => throws
if $1.type == 3, $1.rank == 1, $2 >= 0, $3 > 0, $2 + $3 <= $1.total, this.len + $3 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $3
if $1.type == 3, $1.rank == 1, $2 == 0, $3 < 0, $1.total > 0, this.len + $1.total <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $1.total
fn StringBuilder::Append(String*, int, int)
if $1 is null => returns, ret is this, this'.len == this.len
if $1 is not null, $2 < 0 => throws
if $2 >= 0, $3 >= 0, $2 + $3 > $1.length => throws
if $2 > 0, $3 < 0, $1 is not null => throws
if $1 is not null, $3 >= 0, this.len + $3 > this.max => throws
if $2 >= 0, $3 >= 0, $2 + $3 <= $1.length, this.len + $3 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $3, this'.cap <= this.max
if $2 == 0, $3 < 0, $1 is not null, this.len + $1.length <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $1.length
fn StringBuilder::Append(Object*)
if $1 is null => returns, ret is this, this'.len == this.len
if $1 isa String, this.len + $1.length > this.max => throws
if $1 isa String, this.len + $1.length <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $1.length
if $1 isa StringBuilder, this.len + $1.len > this.max => throws
if $1 isa StringBuilder, this.len + $1.len <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $1.len
fn StringBuilder::Append(wchar_t)
if this.len == this.max => throws
if this.len < this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + 1
fn StringBuilder::Append(wchar_t, int)
if $2 < 0 => throws
if this.len + $2 > this.max => throws
if $2 >= 0, this.len + $2 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $2, this'.cap <= this.max
fn StringBuilder::Append(bool)
if this.len + 5 <= this.max, this.max <= 500000000, $1 == 1 => returns, ret is this, this'.len == this.len + 4
if this.len + 5 <= this.max, this.max <= 500000000, $1 == 0 => returns, ret is this, this'.len == this.len + 5
if this.len + 3 >= this.max => throws
fn StringBuilder::Append(int)
if this.len + 11 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len > this.len, this'.len <= this.len + 11
fn StringBuilder::Append(unsigned int)
if this.len + 10 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len > this.len, this'.len <= this.len + 10
fn StringBuilder::Append(long)
if this.len + 20 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len > this.len, this'.len <= this.len + 20
fn StringBuilder::Append(unsigned long)
if this.len + 20 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len > this.len, this'.len <= this.len + 20
fn StringBuilder::AppendLine()
if this.len + 2 > this.max => throws
if this.len + 2 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + 2
fn StringBuilder::AppendLine(String*)
if $1 is null, this.len + 2 > this.max => throws
if this.len + $1.length + 2 > this.max => throws
if $1 is null, this.len + 2 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + 2
if this.len + $1.length + 2 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $1.length + 2
fn StringBuilder::Clear()
always => returns, ret is this, this'.len == 0, this'.cap == this.cap, this'.max == this.max
fn StringBuilder::Remove(int, int)
if $1 < 0 => throws
if $2 < 0 => throws
if $1 + $2 > this.len => throws
if $1 >= 0, $2 >= 0, $1 + $2 <= this.len => returns, ret is this, this'.len == this.len - $2, this'.cap == this.cap
fn StringBuilder::Equals(StringBuilder*)
if $1 is null => returns, ret == 0
if $1.len != this.len => returns, ret == 0
if $1.len == 0, this.len == 0, $1.cap == this.cap, $1.max == this.max => returns, ret == 1
fn StringBuilder::Insert(int, Array*, int, int)
if $1 < 0 => throws
if $1 > this.len => throws
if $1 >= 0, $1 <= this.len, $2 is null => returns, ret is this, this'.len == this.len
if $2.type != 3, $4 > 0 => throws
if $2.rank != 1, $4 > 0 => throws
if $3 >= 0, $4 > 0, $3 + $4 > $2.total => throws
if $2 is not null, $4 > 0, this.len + $4 > this.max => throws
if $1 >= 0, $1 <= this.len, $2.type == 3, $2.rank == 1, $3 >= 0, $4 > 0, $3 + $4 <= $2.total, this.len + $4 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $4
fn StringBuilder::Insert(int, wchar_t)
if $1 < 0 => throws
if $1 > this.len => throws
if this.len == this.max => throws
if $1 >= 0, $1 <= this.len, this.len < this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + 1
fn StringBuilder::Insert(int, bool)
if $1 < 0 => throws
if $1 > this.len => throws
if $1 >= 0, $1 <= this.len, this.len + 5 <= this.max, this.max <= 500000000, $2 == 1 => returns, ret is this, this'.len == this.len + 4
if $1 >= 0, $1 <= this.len, this.len + 5 <= this.max, this.max <= 500000000, $2 == 0 => returns, ret is this, this'.len == this.len + 5
fn StringBuilder::Insert(int, int)
if $1 < 0 => throws
if $1 > this.len => throws
if $1 >= 0, $1 <= this.len, this.len + 11 <= this.max, this.max <= 500000000 => returns, ret is this, this'.len > this.len, this'.len <= this.len + 11
fn StringBuilder::Insert(int, Object*)
if $1 < 0 => throws
if $1 > this.len => throws
if $1 >= 0, $1 <= this.len, $2 is null => returns, ret is this, this'.len == this.len
if $1 >= 0, $1 <= this.len, $2 isa String, this.len + $2.length <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $2.length
fn StringBuilder::Insert(int, String*, int)
if $1 < 0 => throws
if $1 > this.len => throws
if $1 >= 0, $1 <= this.len, $3 < 0 => throws
if $1 >= 0, $1 <= this.len, $2 is null, $3 >= 0 => returns, ret is this, this'.len == this.len
if $1 >= 0, $1 <= this.len, $2 is not null, $3 == 0 => returns, ret is this, this'.len == this.len
if $3 == 1, this.len + $2.length > this.max => throws
if $1 >= 0, $1 <= this.len, $3 == 1, this.len + $2.length <= this.max, this.max <= 500000000 => returns, ret is this, this'.len == this.len + $2.length
fn StringBuilder::Replace(wchar_t, wchar_t)
always => returns, ret is this, this'.len == this.len, this'.cap == this.cap
fn StringBuilder::Replace(wchar_t, wchar_t, int, int)
if $3 < 0 => throws
if $4 < 0 => throws
if $3 + $4 > this.len => throws
if $3 >= 0, $4 >= 0, $3 + $4 <= this.len => returns, ret is this, this'.len == this.len, this'.cap == this.cap
fn StringBuilder::Replace(String*, String*)
if $1 is null => throws
if $1.length == 0 => throws
if $1.length > this.len => returns, ret is this, this'.len == this.len
fn StringBuilder::Replace(String*, String*, int, int)
if $1 is null => throws
if $1.length == 0 => throws
if $3 < 0 => throws
if $4 < 0 => throws
if $3 + $4 > this.len => throws
if $3 >= 0, $4 >= 0, $3 + $4 <= this.len, $1.length > $4 => returns, ret is this, this'.len == this.len
