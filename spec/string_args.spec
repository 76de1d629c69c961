# Strings: which arguments are accepted, how long results are, where matches may lie
fn String::get_Length()
always => returns, ret == this.length, ret >= 0
fn String::String(wchar_t const*, int, int)
if $2 < 0 => throws
if $2 >= 0, $3 >= 0 => this'.length == $3
if $2 == 0, $3 == 0 => returns, this'.length == 0
fn String::String(Array*, int, int)
if $1 is null => returns, this'.length == 0
if $3 == 0 => returns, this'.length == 0
if $1.type != 3, $3 > 0 => throws
if $1.rank != 1, $3 > 0 => throws
if $3 > 0, $2 >= 0, $2 + $3 > $1.total => throws
if $3 > 0, $2 < 0, $3 > $1.total => throws
if $1.type == 3, $1.rank == 1, $2 >= 0, $3 > 0, $2 + $3 <= $1.total => returns, this'.length == $3
if $1.type == 3, $1.rank == 1, $2 <= 0, $3 < 0, $1.total > 0 => returns, this'.length == $1.total
fn String::String(wchar_t, int)
if $2 < 0 => throws
if $2 >= 0 => returns, this'.length == $2
fn String::get_Chars(int)
if $1 < 0 => throws IndexOutOfRangeException
if $1 >= this.length => throws IndexOutOfRangeException
if $1 >= 0, $1 < this.length => returns
fn String::Compare(String*, int, String*, int, int, bool, bool)
if $5 < 0 => throws
if $2 < 0 => throws
if $4 < 0 => throws
if $2 > $1.length, $3 is not null => throws
if $4 > $3.length, $1 is not null => throws
if $1 is null, $3 is null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret == 0
if $1 is null, $3 is not null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret < 0
if $1 is not null, $3 is null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret > 0
if $2 >= 0, $2 <= $1.length, $4 >= 0, $4 <= $3.length, $5 >= 0 => returns, ret >= -1, ret <= 1
if $2 >= 0, $2 <= $1.length, $4 >= 0, $4 <= $3.length, $5 == 0 => returns, ret == 0
if $2 == $1.length, $4 >= 0, $4 < $3.length, $5 > 0 => returns, ret == -1
if $2 >= 0, $2 < $1.length, $4 == $3.length, $5 > 0 => returns, ret == 1
fn String::Compare(String*, int, String*, int, int, bool)
if $5 < 0 => throws
if $2 < 0 => throws
if $4 < 0 => throws
if $2 > $1.length, $3 is not null => throws
if $4 > $3.length, $1 is not null => throws
if $1 is null, $3 is null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret == 0
if $1 is null, $3 is not null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret < 0
if $1 is not null, $3 is null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret > 0
if $2 >= 0, $2 <= $1.length, $4 >= 0, $4 <= $3.length, $5 == 0 => returns, ret == 0
fn String::CompareOrdinal(String*, int, String*, int, int)
if $5 < 0 => throws
if $2 < 0 => throws
if $4 < 0 => throws
if $2 > $1.length, $3 is not null => throws
if $4 > $3.length, $1 is not null => throws
if $1 is null, $3 is null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret == 0
if $1 is null, $3 is not null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret < 0
if $1 is not null, $3 is null, $2 >= 0, $4 >= 0, $5 >= 0 => returns, ret > 0
if $2 >= 0, $2 <= $1.length, $4 >= 0, $4 <= $3.length, $5 == 0 => returns, ret == 0
fn String::Compare(String*, String*, bool)
if $1 is null, $2 is null => returns, ret == 0
if $1 is null, $2 is not null => returns, ret < 0
if $1 is not null, $2 is null => returns, ret > 0
if $1.length == 0, $2.length > 0 => returns, ret < 0
if $1.length > 0, $2.length == 0 => returns, ret > 0
if $1.length == 0, $2.length == 0 => returns, ret == 0
fn String::CompareOrdinal(String*, String*)
if $1 is null, $2 is null => returns, ret == 0
if $1 is null, $2 is not null => returns, ret < 0
if $1 is not null, $2 is null => returns, ret > 0
if $1.length == 0, $2.length > 0 => returns, ret < 0
if $1.length > 0, $2.length == 0 => returns, ret > 0
fn String::CompareTo(Object*)
if $1 is null => returns, ret > 0
if $1 isa StringBuilder => throws ArgumentException
if $1 isa Int32Value => throws ArgumentException
if $1 isa String => returns
fn String::CompareTo(String*)
if $1 is null => returns, ret > 0
if this.length == 0, $1.length > 0 => returns, ret < 0
if this.length > 0, $1.length == 0 => returns, ret > 0
fn String::Concat(Array*)
if $1 is null => throws
if $1.rank != 1 => throws
if $1.type != 1, $1.type != 17 => throws
fn String::Concat(Object*, Object*, Object*, Object*, Object*, Object*, Object*)
if $1 is null => throws
if $1 isa String, $2 is null, $3 is null, $4 is null, $5 is null, $6 is null, $7 is null => returns, ret.length == $1.length
fn String::Contains(String*)
if $1 is null => throws
if $1.length == 0 => returns, ret == 1
if $1.length > this.length => returns, ret == 0
fn String::Copy(String*)
if $1 is null => throws
if $1 is not null => returns, ret.length == $1.length
fn String::CopyTo(int, Array*, int, int)
if $2 is null => throws
if $2.rank != 1 => throws
if $2.type != 3 => throws
if $1 < 0 => throws
if $3 < 0 => throws
if $4 < 0 => throws
if $1 + $4 > this.length => throws
if $3 + $4 > $2.total => throws
if $2.rank == 1, $2.type == 3, $1 >= 0, $3 >= 0, $4 >= 0, $1 + $4 <= this.length, $3 + $4 <= $2.total => returns
fn String::EndsWith(String*)
if $1 is null => throws
if $1.length == 0 => returns, ret == 1
if $1.length > this.length => returns, ret == 0
if $1 is not null => returns
fn String::StartsWith(String*)
if $1 is null => throws
if $1.length == 0 => returns, ret == 1
if $1.length > this.length => returns, ret == 0
if $1 is not null => returns
fn String::EndsWith(wchar_t)
if this.length == 0 => returns, ret == 0
always => returns
fn String::op_Inequality(String*, String*)
if $1 is null, $2 is null => returns, ret == 0
if $1 is null, $2 is not null => returns, ret == 1
if $1 is not null, $2 is null => returns, ret == 1
if $1.length != $2.length => returns, ret == 1
if $1.length == 0, $2.length == 0 => returns, ret == 0
fn String::Equals(Object*)
if $1 is null => returns, ret == 0
if $1 isa Array => returns, ret == 0
if $1 isa StringBuilder => returns, ret == 0
if $1 isa String, $1.length != this.length => returns, ret == 0
fn String::Equals(String*)
if $1 is null => returns, ret == 0
if $1 isa String, $1.length != this.length => returns, ret == 0
if $1.length == 0, this.length == 0 => returns, ret == 1
fn String::Equals(String*, String*)
if $1 is null, $2 is null => returns, ret == 1
if $1 is null, $2 is not null => returns, ret == 0
if $1 is not null, $2 is null => returns, ret == 0
if $1.length != $2.length => returns, ret == 0
fn String::GetEnumerator()
always => returns, ret isa CharEnumerator, ret.index == -1
fn String::IndexOf(wchar_t)
always => returns, ret >= -1, ret < this.length
fn String::IndexOf(wchar_t, int)
if $2 < 0 => throws
if $2 > this.length => throws
if $2 == this.length => returns, ret == -1
if $2 >= 0, $2 <= this.length => returns, ret == -1 | ret >= $2, ret < this.length
fn String::IndexOf(wchar_t, int, int)
if $2 < 0 => throws
if $3 < 0 => throws
if $2 + $3 > this.length => throws
if $2 >= 0, $3 >= 0, $2 + $3 <= this.length => returns, ret == -1 | ret >= $2, ret < $2 + $3
if $2 >= 0, $3 == 0, $2 <= this.length => returns, ret == -1
fn String::IndexOf(String*)
if $1 is null => throws
if $1 is not null => returns, ret >= -1, ret == -1 | ret + $1.length <= this.length
fn String::IndexOf(String*, int)
if $1 is null => throws
if $2 < 0 => throws
if $2 > this.length => throws
if $1 is not null, $2 >= 0, $2 <= this.length => returns, ret == -1 | ret >= $2, ret == -1 | ret + $1.length <= this.length
fn String::IndexOf(String*, int, int)
if $1 is null => throws
if $2 < 0 => throws
if $3 < 0 => throws
if $2 + $3 > this.length => throws
if $1 is not null, $2 >= 0, $3 >= 0, $2 + $3 <= this.length => returns, ret == -1 | ret >= $2, ret == -1 | ret + $1.length <= $2 + $3
if $1.length > $3, $2 >= 0, $3 >= 0, $2 + $3 <= this.length => returns, ret == -1
fn String::IndexOfAny(Array*)
if $1 is null => throws
if $1.rank != 1 => throws
if $1.type != 3 => throws
if $1.rank == 1, $1.type == 3 => returns, ret >= -1, ret < this.length
fn String::IndexOfAny(Array*, int)
if $1 is null => throws
if $1.rank != 1 => throws
if $1.type != 3 => throws
if $2 < 0 => throws
if $2 > this.length => throws
if $1.rank == 1, $1.type == 3, $2 >= 0, $2 <= this.length => returns, ret == -1 | ret >= $2, ret < this.length
fn String::IndexOfAny(Array*, int, int)
if $1 is null => throws
if $1.rank != 1 => throws
if $1.type != 3 => throws
if $2 < 0 => throws
if $3 < 0 => throws
if $2 + $3 > this.length => throws
if $1.rank == 1, $1.type == 3, $2 >= 0, $3 >= 0, $2 + $3 <= this.length => returns, ret == -1 | ret >= $2, ret < $2 + $3
fn String::Insert(int, String*)
if $2 is null => throws
if $1 < 0 => throws
if $1 > this.length => throws
if $2 is not null, $1 >= 0, $1 <= this.length, this.length + $2.length <= 1000000 => returns, ret.length == this.length + $2.length
fn String::IsNullOrEmpty(String*)
if $1 is null => returns, ret == 1
if $1.length == 0 => returns, ret == 1
if $1.length > 0 => returns, ret == 0
fn String::IsNullOrWhiteSpace(String*)
if $1 is null => returns, ret == 1
if $1.length == 0 => returns, ret == 1
fn String::Join(wchar_t, Array*, int, int)
if $2 is null => throws
if $2.total > 0, $2.rank != 1 => throws
if $2.total > 0, $2.type != 1, $2.type != 17 => throws
if $2.total > 0, $3 < 0 => throws
if $2.total > 0, $3 >= 0, $4 >= 0, $3 + $4 > $2.total => throws
if $2.total > 0, $3 > $2.total => throws
fn String::Join(String*, Array*, int, int)
if $2 is null => throws
if $2.total > 0, $2.rank != 1 => throws
if $2.total > 0, $2.type != 1, $2.type != 17 => throws
if $2.total > 0, $3 < 0 => throws
if $2.total > 0, $3 >= 0, $4 >= 0, $3 + $4 > $2.total => throws
if $2.total > 0, $3 > $2.total => throws
fn String::LastIndexOf(wchar_t, int, int)
if $2 >= this.length => throws
if $2 >= 0, $3 > $2 + 1 => throws
if $2 >= 0, $2 < this.length, $3 >= 0, $3 <= $2 + 1 => returns, ret == -1 | ret > $2 - $3, ret <= $2
if $2 < 0, $3 < 0 => ret >= -1, ret < this.length
fn String::LastIndexOf(String*, int, int)
if $1 is null => throws
if $2 >= this.length => throws
if $2 >= 0, $3 > $2 + 1 => throws
if $1 is not null, $2 >= 0, $2 < this.length, $3 >= 0, $3 <= $2 + 1 => returns, ret == -1 | ret > $2 - $3, ret <= $2
fn String::LastIndexOfAny(Array*, int, int)
if $1 is null => throws
if $1.rank != 1 => throws
if $1.type != 3 => throws
if $2 >= this.length => throws
if $2 >= 0, $3 > $2 + 1 => throws
if $1.rank == 1, $1.type == 3, $2 >= 0, $2 < this.length, $3 >= 0, $3 <= $2 + 1 => returns, ret == -1 | ret > $2 - $3, ret <= $2
fn String::PadLeft(int, wchar_t)
if $1 < 0 => throws
if $1 >= 0, $1 <= this.length => returns, ret.length == this.length
if $1 >= this.length, $1 <= 2000000000 => returns, ret.length == $1
fn String::PadRight(int, wchar_t)
if $1 < 0 => throws
if $1 >= 0, $1 <= this.length => returns, ret.length == this.length
if $1 >= this.length, $1 <= 2000000000 => returns, ret.length == $1
fn String::Remove(int, int)
if $1 < 0 => throws
if $1 > this.length => throws
if $1 >= 0, $2 >= 0, $1 + $2 > this.length => throws
if $1 >= 0, $2 >= 0, $1 + $2 <= this.length => returns, ret.length == this.length - $2
if $1 >= 0, $2 < 0, $1 <= this.length => returns, ret.length == $1
fn String::Replace(wchar_t, wchar_t)
always => returns, ret.length == this.length
fn String::Replace(String*, String*)
if $1 is null => throws
if $1.length == 0 => throws
fn String::Substring(int, int)
if $1 < 0 => throws
if $1 > this.length => throws
if $2 >= 0, $1 + $2 > this.length => throws
if $1 >= 0, $2 >= 0, $1 + $2 <= this.length => returns, ret.length == $2
if $1 >= 0, $2 < 0, $1 <= this.length => returns, ret.length == this.length - $1
fn String::ToCharArray(int, int)
if $1 < 0 => throws
if $1 > this.length => throws
if $2 >= 0, $1 + $2 > this.length => throws
if $1 >= 0, $2 >= 0, $1 + $2 <= this.length, $2 <= 500000000 => returns, ret.total == $2, ret.type == 3, ret.rank == 1
if $1 >= 0, $2 < 0, $1 <= this.length, this.length <= 500000000 => returns, ret.total == this.length - $1, ret.type == 3, ret.rank == 1
fn String::ToLower()
always => returns, ret.length == this.length
fn String::ToLowerInvariant()
always => returns, ret.length == this.length
fn String::ToUpper()
always => returns, ret.length == this.length
fn String::ToUpperInvariant()
always => returns, ret.length == this.length
fn String::ToString()
always => returns, ret.length == this.length
fn String::Trim()
always => returns, ret.length >= 0, ret.length <= this.length
fn String::Trim(Array*)
if $1.type != 3, $1.total > 0 => throws
if $1.rank != 1, $1.total > 0 => throws
if $1.type == 3, $1.rank == 1 => returns, ret.length >= 0, ret.length <= this.length
if $1 is null => returns, ret.length >= 0, ret.length <= this.length
fn String::TrimEnd(Array*)
if $1.type != 3, $1.total > 0 => throws
if $1.rank != 1, $1.total > 0 => throws
if $1.type == 3, $1.rank == 1 => returns, ret.length >= 0, ret.length <= this.length
if $1 is null => returns, ret.length >= 0, ret.length <= this.length
fn String::TrimStart(Array*)
if $1.type != 3, $1.total > 0 => throws
if $1.rank != 1, $1.total > 0 => throws
if $1.type == 3, $1.rank == 1 => returns, ret.length >= 0, ret.length <= this.length
if $1 is null => returns, ret.length >= 0, ret.length <= this.length
fn String::FormatString(wchar_t*, int)
if $2 <= this.length => throws
if $2 > this.length => returns, ret == this.length
