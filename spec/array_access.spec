# Element access: the address of an element is row major, exactly the indexes inside the declared dimensions are accepted
fn Array::Address(int, int, int)
if this.rank == 1, $1 >= 0, $1 < this.dim1, $2 < 0, $3 < 0 => returns, ret in this.data, ret.offset == $1 * this.elem
if this.rank == 2, $1 >= 0, $1 < this.dim1, $2 >= 0, $2 < this.dim2, $3 < 0 => returns, ret in this.data, ret.offset == ($1 * this.dim2 + $2) * this.elem
if this.rank == 3, $1 >= 0, $1 < this.dim1, $2 >= 0, $2 < this.dim2, $3 >= 0, $3 < this.dim3 => returns, ret in this.data, ret.offset == (($1 * this.dim2 + $2) * this.dim3 + $3) * this.elem
if $1 < 0 => throws IndexOutOfRangeException
if $1 >= this.dim1 => throws IndexOutOfRangeException
if this.rank == 1, $2 >= 0 => throws IndexOutOfRangeException
if this.rank >= 2, $2 < 0 => throws IndexOutOfRangeException
if this.rank >= 2, $2 >= this.dim2 => throws IndexOutOfRangeException
if this.rank <= 2, $3 >= 0 => throws IndexOutOfRangeException
if this.rank == 3, $3 < 0 => throws IndexOutOfRangeException
if this.rank == 3, $3 >= this.dim3 => throws IndexOutOfRangeException
fn Array::get_Length()
always => returns, ret == this.total
fn Array::get_Rank()
always => returns, ret == this.rank
fn Array::GetLength(int)
if $1 < 0 => throws
if $1 >= this.rank => throws
if $1 == 0 => returns, ret == this.dim1
if $1 == 1, this.rank >= 2 => returns, ret == this.dim2
if $1 == 2, this.rank == 3 => returns, ret == this.dim3
fn Array::GetLowerBound(int)
if $1 < 0 => throws
if $1 >= this.rank => throws
if $1 >= 0, $1 < this.rank => returns, ret == 0
fn Array::GetUpperBound(int)
if $1 < 0 => throws
if $1 >= this.rank => throws
if $1 == 0 => returns, ret == this.dim1 - 1
if $1 == 1, this.rank >= 2 => returns, ret == this.dim2 - 1
if $1 == 2, this.rank == 3 => returns, ret == this.dim3 - 1
fn Array::Array(DataType, int, int, int)
if $2 < 0 => throws
if $3 < -1 => throws
if $4 < -1 => throws
if $2 >= 0, $2 <= 1000, $3 == -1, $4 == -1 => returns, this'.rank == 1, this'.total == $2, this'.dim1 == $2, this'.type == $1
if $2 >= 0, $2 <= 1000, $3 >= 0, $3 <= 1000, $4 == -1 => returns, this'.rank == 2, this'.total == $2 * $3, this'.dim1 == $2, this'.dim2 == $3, this'.type == $1
if $2 >= 0, $2 <= 100, $3 >= 0, $3 <= 100, $4 >= 0, $4 <= 100 => returns, this'.rank == 3, this'.total == $2 * $3 * $4, this'.dim1 == $2, this'.dim2 == $3, this'.dim3 == $4, this'.type == $1
