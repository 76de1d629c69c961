# The platform's memory pool: 32767 bytes, blocks aligned to 8.
fn Pool::Apart(unsigned long,unsigned long)
if $1 >= 1, $2 >= 1 => returns, ret == 0 | ret >= $1 | ret <= -$2
fn Pool::ApartAfterDelete(unsigned long,unsigned long)
if $1 >= 1, $2 >= 1 => returns, ret == 0 | ret >= $1 | ret <= -$2
fn Pool::Aligned(unsigned long,unsigned long)
always => returns, ret == 1
fn Pool::First(unsigned long)
if $1 <= 32760 => returns, ret == 1
if $1 >= 32768 => returns, ret == 0
fn Pool::Second(unsigned long,unsigned long)
if $1 <= 16376, $2 <= 16376 => returns, ret == 1
if $1 <= 32767, $2 <= 32767, $1 + $2 >= 32768 => returns, ret == 0
if $2 >= 32768 => returns, ret == 0
fn Pool::AfterRefusal(unsigned long,unsigned long)
if $1 >= 32768, $2 <= 32760 => returns, ret == 1
fn Pool::Zeroed(unsigned long,unsigned long,unsigned long)
if $1 <= 32760, $2 <= 32760, $3 < $2 => returns, ret == 0
if $1 <= 32760, $2 == 1, $3 == 0 => returns, ret == 0
if $1 <= 32760, $2 == 2, $3 == 1 => returns, ret == 0
if $1 <= 32760, $2 == 3, $3 == 2 => returns, ret == 0
if $1 <= 32760, $2 == 4, $3 == 3 => returns, ret == 0
if $1 <= 32760, $2 == 5, $3 == 4 => returns, ret == 0
if $1 <= 32760, $2 == 6, $3 == 5 => returns, ret == 0
if $1 <= 32760, $2 == 7, $3 == 6 => returns, ret == 0
if $1 <= 32760, $2 == 8, $3 == 7 => returns, ret == 0
if $1 <= 32760, $2 == 9, $3 == 8 => returns, ret == 0
if $1 <= 32760, $2 == 10, $3 == 9 => returns, ret == 0
if $1 <= 32760, $2 == 11, $3 == 10 => returns, ret == 0
if $1 <= 32760, $2 == 12, $3 == 11 => returns, ret == 0
if $1 <= 32760, $2 == 13, $3 == 12 => returns, ret == 0
if $1 <= 32760, $2 == 14, $3 == 13 => returns, ret == 0
if $1 <= 32760, $2 == 15, $3 == 14 => returns, ret == 0
if $1 <= 32760, $2 == 16, $3 == 15 => returns, ret == 0
if $1 <= 32760, $2 == 17, $3 == 16 => returns, ret == 0
if $1 <= 32760, $2 == 100, $3 == 99 => returns, ret == 0
if $1 <= 32760, $2 == 1023, $3 == 1022 => returns, ret == 0
if $1 <= 32760, $2 == 4097, $3 == 4096 => returns, ret == 0
if $1 <= 32760, $2 == 32760, $3 == 32759 => returns, ret == 0
fn Pool::SecondZeroed(unsigned long,unsigned long,unsigned long,unsigned long)
if $1 <= 32760, $2 <= 16376, $3 <= 16376, $4 < $3 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 1, $4 == 0 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 2, $4 == 1 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 3, $4 == 2 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 4, $4 == 3 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 5, $4 == 4 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 6, $4 == 5 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 7, $4 == 6 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 8, $4 == 7 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 9, $4 == 8 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 10, $4 == 9 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 11, $4 == 10 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 12, $4 == 11 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 13, $4 == 12 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 14, $4 == 13 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 15, $4 == 14 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 16, $4 == 15 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 17, $4 == 16 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 100, $4 == 99 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 1023, $4 == 1022 => returns, ret == 0
if $1 == 32760, $2 <= 16376, $3 == 4097, $4 == 4096 => returns, ret == 0
fn Pool::Recycled(unsigned long,unsigned long)
if $1 <= 32760, $2 <= 32760 => returns, ret == 0
fn Pool::RecycledFull(unsigned long,unsigned long)
if $1 <= 32760, $2 <= 32760 => returns, ret == 1
fn Pool::Plain(unsigned long,unsigned long)
if $1 <= 1048576, $2 < $1 => returns, ret == 0
if $1 == 1, $2 == 0 => returns, ret == 0
if $1 == 2, $2 == 1 => returns, ret == 0
if $1 == 3, $2 == 2 => returns, ret == 0
if $1 == 4, $2 == 3 => returns, ret == 0
if $1 == 5, $2 == 4 => returns, ret == 0
if $1 == 6, $2 == 5 => returns, ret == 0
if $1 == 7, $2 == 6 => returns, ret == 0
if $1 == 8, $2 == 7 => returns, ret == 0
if $1 == 9, $2 == 8 => returns, ret == 0
if $1 == 10, $2 == 9 => returns, ret == 0
if $1 == 11, $2 == 10 => returns, ret == 0
if $1 == 12, $2 == 11 => returns, ret == 0
if $1 == 13, $2 == 12 => returns, ret == 0
if $1 == 14, $2 == 13 => returns, ret == 0
if $1 == 15, $2 == 14 => returns, ret == 0
if $1 == 16, $2 == 15 => returns, ret == 0
if $1 == 17, $2 == 16 => returns, ret == 0
if $1 == 100, $2 == 99 => returns, ret == 0
if $1 == 1023, $2 == 1022 => returns, ret == 0
if $1 == 4097, $2 == 4096 => returns, ret == 0
