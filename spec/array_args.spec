# Array operations accept exactly the valid ranges
fn Array::Clear(Array*, int, int)
if $1 is null => throws
if $2 < 0 => throws
if $3 < 0 => throws
if $1.rank != 1 => throws
if $2 + $3 > $1.total => throws
if $1.rank == 1, $2 >= 0, $3 >= 0, $2 + $3 <= $1.total => returns
fn Array::Copy(Array*, int, Array*, int, int)
if $1 is null => throws
if $3 is null => throws
if $2 < 0 => throws
if $4 < 0 => throws
if $5 < 0 => throws
if $2 + $5 > $1.total => throws
if $4 + $5 > $3.total => throws
if $1.rank != $3.rank => throws
if $1.type == $3.type, $1.rank == $3.rank, $2 >= 0, $4 >= 0, $5 >= 0, $2 + $5 <= $1.total, $4 + $5 <= $3.total => returns
fn Array::Copy(Array*, Array*, int)
if $1 is null => throws
if $2 is null => throws
if $3 < 0 => throws
if $3 > $1.total => throws
if $3 > $2.total => throws
if $1.type == $2.type, $1.rank == $2.rank, $3 >= 0, $3 <= $1.total, $3 <= $2.total => returns
fn Array::ConstrainedCopy(Array*, int, Array*, int, int)
if $1 is null => throws
if $3 is null => throws
if $2 < 0 => throws
if $4 < 0 => throws
if $5 < 0 => throws
if $2 + $5 > $1.total => throws
if $4 + $5 > $3.total => throws
if $1.type == $3.type, $1.rank == $3.rank, $2 >= 0, $4 >= 0, $5 >= 0, $2 + $5 <= $1.total, $4 + $5 <= $3.total => returns
fn Array::CopyTo(Array*, int)
if $1 is null => throws
if $2 < 0 => throws
if $2 + this.total > $1.total => throws
if $1.rank == 1, this.rank == 1, $1.type == this.type, $2 >= 0, $2 + this.total <= $1.total => returns
fn Array::IndexOf(Array*, Object*, int, int)
if $1 is null => throws
if $3 < 0 => throws
if $3 > $1.total => throws
if $3 >= 0, $4 >= 0, $3 + $4 > $1.total => throws
if $1.rank != 1 => throws
if $1.type == 17, $1.rank == 1, $3 >= 0, $4 >= 0, $3 + $4 <= $1.total => returns, ret >= -1, ret < $3 + $4
if $1.type == 1, $1.rank == 1, $3 >= 0, $4 >= 0, $3 + $4 <= $1.total => returns, ret >= -1, ret < $3 + $4
fn Array::GetValue(int, int, int)
if $1 < 0 => throws
if $1 >= this.dim1 => throws
if this.rank >= 2, $2 < 0 => throws
if this.rank >= 2, $2 >= this.dim2 => throws
if this.rank == 3, $3 < 0 => throws
if this.rank == 3, $3 >= this.dim3 => throws
if this.type == 2, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa BooleanValue
if this.type == 3, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa CharValue
if this.type == 4, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa SByteValue
if this.type == 5, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa ByteValue
if this.type == 6, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa Int16Value
if this.type == 7, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa UInt16Value
if this.type == 8, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa Int32Value
if this.type == 9, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa UInt32Value
if this.type == 10, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa Int64Value
if this.type == 11, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa UInt64Value
if this.type == 12, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa SingleValue
if this.type == 13, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa DoubleValue
if this.type == 15, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa DateTimeValue
if this.type == 16, this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret isa TimeSpanValue
fn Array::SetValue(Object*, int, int, int)
if $1 is null => throws
if $2 < 0 => throws
if $2 >= this.dim1 => throws
if this.rank >= 2, $3 < 0 => throws
if this.rank >= 2, $3 >= this.dim2 => throws
if this.rank == 3, $4 < 0 => throws
if this.rank == 3, $4 >= this.dim3 => throws
if this.type == 1, $1 is not null, this.rank == 1, $2 >= 0, $2 < this.dim1, $3 < 0, $4 < 0 => returns
fn Array::GetValue(Array*)
if $1 is null => throws
fn Array::SetValue(Object*, Array*)
if $2 is null => throws
fn Buffer::BlockCopy(Array*, int, Array*, int, int)
if $1 is null => throws
if $3 is null => throws
if $2 < 0 => throws
if $4 < 0 => throws
if $5 < 0 => throws
if $1.type == 1 => throws
if $1.type == 17 => throws
if $3.type == 1 => throws
if $3.type == 17 => throws
if $1.rank == 1, $3.rank == 1, $1.type >= 2, $1.type <= 13, $3.type >= 2, $3.type <= 13, $2 >= 0, $4 >= 0, $5 >= 0, $2 + $5 <= $1.total * $1.elem, $4 + $5 <= $3.total * $3.elem => returns
if $2 + $5 > $1.total * $1.elem => throws
if $4 + $5 > $3.total * $3.elem => throws
fn Buffer::ByteLength(Array*)
if $1 is null => throws
if $1.type == 1 => throws
if $1.type == 17 => throws
if $1.rank == 1, $1.type >= 2, $1.type <= 13 => returns, ret == $1.total * $1.elem
fn Buffer::GetByte(Array*, int)
if $1 is null => throws
if $2 < 0 => throws
if $1.type == 1 => throws
if $1.type == 17 => throws
if $2 >= $1.total * $1.elem => throws
if $1.rank == 1, $1.type >= 2, $1.type <= 13, $2 >= 0, $2 < $1.total * $1.elem => returns
fn Buffer::SetByte(Array*, int, unsigned char)
if $1 is null => throws
if $2 < 0 => throws
if $1.type == 1 => throws
if $1.type == 17 => throws
if $2 >= $1.total * $1.elem => throws
if $1.rank == 1, $1.type >= 2, $1.type <= 13, $2 >= 0, $2 < $1.total * $1.elem => returns
