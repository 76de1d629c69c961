// Written by gen_text.py. Never executed: analysed together with the library by absint against spec/text.py.
#include "DotnetTypes.h"
using namespace DotnetLibrary;
namespace Laws
{
	Array* ACopyWithinSByte3(SByte c0, SByte c1, SByte c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopySByte3(SByte c0, SByte c1, SByte c2, SByte d0, SByte d1, SByte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array* b = new Array(SByteType, 3); *(SByte*) b->Address(0) = d0; *(SByte*) b->Address(1) = d1; *(SByte*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceSByte3(SByte c0, SByte c1, SByte c2, SByte d0, SByte d1, SByte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array* b = new Array(SByteType, 3); *(SByte*) b->Address(0) = d0; *(SByte*) b->Address(1) = d1; *(SByte*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopySByte3(SByte c0, SByte c1, SByte c2, SByte d0, SByte d1, SByte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array* b = new Array(SByteType, 3); *(SByte*) b->Address(0) = d0; *(SByte*) b->Address(1) = d1; *(SByte*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceSByte3(SByte c0, SByte c1, SByte c2, SByte d0, SByte d1, SByte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array* b = new Array(SByteType, 3); *(SByte*) b->Address(0) = d0; *(SByte*) b->Address(1) = d1; *(SByte*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstSByte3(SByte c0, SByte c1, SByte c2, SByte d0, SByte d1, SByte d2, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array* b = new Array(SByteType, 3); *(SByte*) b->Address(0) = d0; *(SByte*) b->Address(1) = d1; *(SByte*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToSByte3(SByte c0, SByte c1, SByte c2, SByte d0, SByte d1, SByte d2, SByte d3, SByte d4, Int32 k) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array* b = new Array(SByteType, 5); *(SByte*) b->Address(0) = d0; *(SByte*) b->Address(1) = d1; *(SByte*) b->Address(2) = d2; *(SByte*) b->Address(3) = d3; *(SByte*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearSByte3(SByte c0, SByte c1, SByte c2, Int32 st, Int32 ct) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	SByte ASetGetSByte3(SByte c0, SByte c1, SByte c2, SByte v, Int32 i, Int32 j) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; SByteValue x(v); a->SetValue(&x, i); return (SByte) a->GetValue(j)->get_AsInt32(); }
	Array* ASetSByte3(SByte c0, SByte c1, SByte c2, SByte v, Int32 i) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; SByteValue x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListSByte3(SByte c0, SByte c1, SByte c2, SByte v, Int32 i) { Array* a = new Array(SByteType, 3); *(SByte*) a->Address(0) = c0; *(SByte*) a->Address(1) = c1; *(SByte*) a->Address(2) = c2; SByteValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewSByte3() { return new Array(SByteType, 3); }
	Array* AMatrixSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5) { Array* a = new Array(SByteType, 2, 3); *(SByte*) a->Address(0, 0) = c0; *(SByte*) a->Address(0, 1) = c1; *(SByte*) a->Address(0, 2) = c2; *(SByte*) a->Address(1, 0) = c3; *(SByte*) a->Address(1, 1) = c4; *(SByte*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, SByte v, Int32 i, Int32 j) { Array* a = new Array(SByteType, 2, 3); *(SByte*) a->Address(0, 0) = c0; *(SByte*) a->Address(0, 1) = c1; *(SByte*) a->Address(0, 2) = c2; *(SByte*) a->Address(1, 0) = c3; *(SByte*) a->Address(1, 1) = c4; *(SByte*) a->Address(1, 2) = c5; SByteValue x(v); a->SetValue(&x, i, j); return a; }
	SByte AMatrixGetSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, Int32 i, Int32 j) { Array* a = new Array(SByteType, 2, 3); *(SByte*) a->Address(0, 0) = c0; *(SByte*) a->Address(0, 1) = c1; *(SByte*) a->Address(0, 2) = c2; *(SByte*) a->Address(1, 0) = c3; *(SByte*) a->Address(1, 1) = c4; *(SByte*) a->Address(1, 2) = c5; return (SByte) a->GetValue(i, j)->get_AsInt32(); }
	Array* ACubeSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, SByte c6, SByte c7, SByte c8, SByte c9, SByte c10, SByte c11) { Array* a = new Array(SByteType, 2, 3, 2); *(SByte*) a->Address(0, 0, 0) = c0; *(SByte*) a->Address(0, 0, 1) = c1; *(SByte*) a->Address(0, 1, 0) = c2; *(SByte*) a->Address(0, 1, 1) = c3; *(SByte*) a->Address(0, 2, 0) = c4; *(SByte*) a->Address(0, 2, 1) = c5; *(SByte*) a->Address(1, 0, 0) = c6; *(SByte*) a->Address(1, 0, 1) = c7; *(SByte*) a->Address(1, 1, 0) = c8; *(SByte*) a->Address(1, 1, 1) = c9; *(SByte*) a->Address(1, 2, 0) = c10; *(SByte*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, SByte c6, SByte c7, SByte c8, SByte c9, SByte c10, SByte c11, SByte v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 2, 3, 2); *(SByte*) a->Address(0, 0, 0) = c0; *(SByte*) a->Address(0, 0, 1) = c1; *(SByte*) a->Address(0, 1, 0) = c2; *(SByte*) a->Address(0, 1, 1) = c3; *(SByte*) a->Address(0, 2, 0) = c4; *(SByte*) a->Address(0, 2, 1) = c5; *(SByte*) a->Address(1, 0, 0) = c6; *(SByte*) a->Address(1, 0, 1) = c7; *(SByte*) a->Address(1, 1, 0) = c8; *(SByte*) a->Address(1, 1, 1) = c9; *(SByte*) a->Address(1, 2, 0) = c10; *(SByte*) a->Address(1, 2, 1) = c11; SByteValue x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, SByte c6, SByte c7, SByte c8, SByte c9, SByte c10, SByte c11, SByte v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 2, 3, 2); *(SByte*) a->Address(0, 0, 0) = c0; *(SByte*) a->Address(0, 0, 1) = c1; *(SByte*) a->Address(0, 1, 0) = c2; *(SByte*) a->Address(0, 1, 1) = c3; *(SByte*) a->Address(0, 2, 0) = c4; *(SByte*) a->Address(0, 2, 1) = c5; *(SByte*) a->Address(1, 0, 0) = c6; *(SByte*) a->Address(1, 0, 1) = c7; *(SByte*) a->Address(1, 1, 0) = c8; *(SByte*) a->Address(1, 1, 1) = c9; *(SByte*) a->Address(1, 2, 0) = c10; *(SByte*) a->Address(1, 2, 1) = c11; SByteValue x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	SByte ACubeGetSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, SByte c6, SByte c7, SByte c8, SByte c9, SByte c10, SByte c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 2, 3, 2); *(SByte*) a->Address(0, 0, 0) = c0; *(SByte*) a->Address(0, 0, 1) = c1; *(SByte*) a->Address(0, 1, 0) = c2; *(SByte*) a->Address(0, 1, 1) = c3; *(SByte*) a->Address(0, 2, 0) = c4; *(SByte*) a->Address(0, 2, 1) = c5; *(SByte*) a->Address(1, 0, 0) = c6; *(SByte*) a->Address(1, 0, 1) = c7; *(SByte*) a->Address(1, 1, 0) = c8; *(SByte*) a->Address(1, 1, 1) = c9; *(SByte*) a->Address(1, 2, 0) = c10; *(SByte*) a->Address(1, 2, 1) = c11; return (SByte) a->GetValue(i, j, k)->get_AsInt32(); }
	Array* ACopyMatrixSByte(SByte c0, SByte c1, SByte c2, SByte c3, SByte c4, SByte c5, SByte d0, SByte d1, SByte d2, SByte d3, SByte d4, SByte d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SByteType, 2, 3); Array* b = new Array(SByteType, 3, 2); *(SByte*) a->Address(0, 0) = c0; *(SByte*) b->Address(0, 0) = d0; *(SByte*) a->Address(0, 1) = c1; *(SByte*) b->Address(0, 1) = d1; *(SByte*) a->Address(0, 2) = c2; *(SByte*) b->Address(1, 0) = d2; *(SByte*) a->Address(1, 0) = c3; *(SByte*) b->Address(1, 1) = d3; *(SByte*) a->Address(1, 1) = c4; *(SByte*) b->Address(2, 0) = d4; *(SByte*) a->Address(1, 2) = c5; *(SByte*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinByte3(Byte c0, Byte c1, Byte c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyByte3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 3); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceByte3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 3); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyByte3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 3); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceByte3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 3); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstByte3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 3); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToByte3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Byte d3, Byte d4, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 5); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; *(Byte*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearByte3(Byte c0, Byte c1, Byte c2, Int32 st, Int32 ct) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Byte ASetGetByte3(Byte c0, Byte c1, Byte c2, Byte v, Int32 i, Int32 j) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; ByteValue x(v); a->SetValue(&x, i); return (Byte) a->GetValue(j)->get_AsInt32(); }
	Array* ASetByte3(Byte c0, Byte c1, Byte c2, Byte v, Int32 i) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; ByteValue x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListByte3(Byte c0, Byte c1, Byte c2, Byte v, Int32 i) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; ByteValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewByte3() { return new Array(ByteType, 3); }
	Array* ACopyWithinByte4(Byte c0, Byte c1, Byte c2, Byte c3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 4); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 4); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 4); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 4); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 4); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; Array::Copy(a, b, k); return b; }
	Array* ACopyToByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Byte d4, Byte d5, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 6); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; *(Byte*) b->Address(4) = d4; *(Byte*) b->Address(5) = d5; a->CopyTo(b, k); return b; }
	Array* AClearByte4(Byte c0, Byte c1, Byte c2, Byte c3, Int32 st, Int32 ct) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array::Clear(a, st, ct); return a; }
	Byte ASetGetByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte v, Int32 i, Int32 j) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; ByteValue x(v); a->SetValue(&x, i); return (Byte) a->GetValue(j)->get_AsInt32(); }
	Array* ASetByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte v, Int32 i) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; ByteValue x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListByte4(Byte c0, Byte c1, Byte c2, Byte c3, Byte v, Int32 i) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; ByteValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewByte4() { return new Array(ByteType, 4); }
	Array* AMatrixByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5) { Array* a = new Array(ByteType, 2, 3); *(Byte*) a->Address(0, 0) = c0; *(Byte*) a->Address(0, 1) = c1; *(Byte*) a->Address(0, 2) = c2; *(Byte*) a->Address(1, 0) = c3; *(Byte*) a->Address(1, 1) = c4; *(Byte*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Byte v, Int32 i, Int32 j) { Array* a = new Array(ByteType, 2, 3); *(Byte*) a->Address(0, 0) = c0; *(Byte*) a->Address(0, 1) = c1; *(Byte*) a->Address(0, 2) = c2; *(Byte*) a->Address(1, 0) = c3; *(Byte*) a->Address(1, 1) = c4; *(Byte*) a->Address(1, 2) = c5; ByteValue x(v); a->SetValue(&x, i, j); return a; }
	Byte AMatrixGetByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Int32 i, Int32 j) { Array* a = new Array(ByteType, 2, 3); *(Byte*) a->Address(0, 0) = c0; *(Byte*) a->Address(0, 1) = c1; *(Byte*) a->Address(0, 2) = c2; *(Byte*) a->Address(1, 0) = c3; *(Byte*) a->Address(1, 1) = c4; *(Byte*) a->Address(1, 2) = c5; return (Byte) a->GetValue(i, j)->get_AsInt32(); }
	Array* ACubeByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Byte c6, Byte c7, Byte c8, Byte c9, Byte c10, Byte c11) { Array* a = new Array(ByteType, 2, 3, 2); *(Byte*) a->Address(0, 0, 0) = c0; *(Byte*) a->Address(0, 0, 1) = c1; *(Byte*) a->Address(0, 1, 0) = c2; *(Byte*) a->Address(0, 1, 1) = c3; *(Byte*) a->Address(0, 2, 0) = c4; *(Byte*) a->Address(0, 2, 1) = c5; *(Byte*) a->Address(1, 0, 0) = c6; *(Byte*) a->Address(1, 0, 1) = c7; *(Byte*) a->Address(1, 1, 0) = c8; *(Byte*) a->Address(1, 1, 1) = c9; *(Byte*) a->Address(1, 2, 0) = c10; *(Byte*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Byte c6, Byte c7, Byte c8, Byte c9, Byte c10, Byte c11, Byte v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 2, 3, 2); *(Byte*) a->Address(0, 0, 0) = c0; *(Byte*) a->Address(0, 0, 1) = c1; *(Byte*) a->Address(0, 1, 0) = c2; *(Byte*) a->Address(0, 1, 1) = c3; *(Byte*) a->Address(0, 2, 0) = c4; *(Byte*) a->Address(0, 2, 1) = c5; *(Byte*) a->Address(1, 0, 0) = c6; *(Byte*) a->Address(1, 0, 1) = c7; *(Byte*) a->Address(1, 1, 0) = c8; *(Byte*) a->Address(1, 1, 1) = c9; *(Byte*) a->Address(1, 2, 0) = c10; *(Byte*) a->Address(1, 2, 1) = c11; ByteValue x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Byte c6, Byte c7, Byte c8, Byte c9, Byte c10, Byte c11, Byte v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 2, 3, 2); *(Byte*) a->Address(0, 0, 0) = c0; *(Byte*) a->Address(0, 0, 1) = c1; *(Byte*) a->Address(0, 1, 0) = c2; *(Byte*) a->Address(0, 1, 1) = c3; *(Byte*) a->Address(0, 2, 0) = c4; *(Byte*) a->Address(0, 2, 1) = c5; *(Byte*) a->Address(1, 0, 0) = c6; *(Byte*) a->Address(1, 0, 1) = c7; *(Byte*) a->Address(1, 1, 0) = c8; *(Byte*) a->Address(1, 1, 1) = c9; *(Byte*) a->Address(1, 2, 0) = c10; *(Byte*) a->Address(1, 2, 1) = c11; ByteValue x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Byte ACubeGetByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Byte c6, Byte c7, Byte c8, Byte c9, Byte c10, Byte c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 2, 3, 2); *(Byte*) a->Address(0, 0, 0) = c0; *(Byte*) a->Address(0, 0, 1) = c1; *(Byte*) a->Address(0, 1, 0) = c2; *(Byte*) a->Address(0, 1, 1) = c3; *(Byte*) a->Address(0, 2, 0) = c4; *(Byte*) a->Address(0, 2, 1) = c5; *(Byte*) a->Address(1, 0, 0) = c6; *(Byte*) a->Address(1, 0, 1) = c7; *(Byte*) a->Address(1, 1, 0) = c8; *(Byte*) a->Address(1, 1, 1) = c9; *(Byte*) a->Address(1, 2, 0) = c10; *(Byte*) a->Address(1, 2, 1) = c11; return (Byte) a->GetValue(i, j, k)->get_AsInt32(); }
	Array* ACopyMatrixByte(Byte c0, Byte c1, Byte c2, Byte c3, Byte c4, Byte c5, Byte d0, Byte d1, Byte d2, Byte d3, Byte d4, Byte d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 2, 3); Array* b = new Array(ByteType, 3, 2); *(Byte*) a->Address(0, 0) = c0; *(Byte*) b->Address(0, 0) = d0; *(Byte*) a->Address(0, 1) = c1; *(Byte*) b->Address(0, 1) = d1; *(Byte*) a->Address(0, 2) = c2; *(Byte*) b->Address(1, 0) = d2; *(Byte*) a->Address(1, 0) = c3; *(Byte*) b->Address(1, 1) = d3; *(Byte*) a->Address(1, 1) = c4; *(Byte*) b->Address(2, 0) = d4; *(Byte*) a->Address(1, 2) = c5; *(Byte*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinChar3(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyChar3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array* b = new Array(CharType, 3); *(Char*) b->Address(0) = d0; *(Char*) b->Address(1) = d1; *(Char*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceChar3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array* b = new Array(CharType, 3); *(Char*) b->Address(0) = d0; *(Char*) b->Address(1) = d1; *(Char*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyChar3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array* b = new Array(CharType, 3); *(Char*) b->Address(0) = d0; *(Char*) b->Address(1) = d1; *(Char*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceChar3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array* b = new Array(CharType, 3); *(Char*) b->Address(0) = d0; *(Char*) b->Address(1) = d1; *(Char*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstChar3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array* b = new Array(CharType, 3); *(Char*) b->Address(0) = d0; *(Char*) b->Address(1) = d1; *(Char*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToChar3(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Char d3, Char d4, Int32 k) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array* b = new Array(CharType, 5); *(Char*) b->Address(0) = d0; *(Char*) b->Address(1) = d1; *(Char*) b->Address(2) = d2; *(Char*) b->Address(3) = d3; *(Char*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearChar3(Char c0, Char c1, Char c2, Int32 st, Int32 ct) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Char ASetGetChar3(Char c0, Char c1, Char c2, Char v, Int32 i, Int32 j) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; CharValue x(v); a->SetValue(&x, i); return (Char) a->GetValue(j)->get_AsChar(); }
	Array* ASetChar3(Char c0, Char c1, Char c2, Char v, Int32 i) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; CharValue x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListChar3(Char c0, Char c1, Char c2, Char v, Int32 i) { Array* a = new Array(CharType, 3); *(Char*) a->Address(0) = c0; *(Char*) a->Address(1) = c1; *(Char*) a->Address(2) = c2; CharValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewChar3() { return new Array(CharType, 3); }
	Array* AMatrixChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5) { Array* a = new Array(CharType, 2, 3); *(Char*) a->Address(0, 0) = c0; *(Char*) a->Address(0, 1) = c1; *(Char*) a->Address(0, 2) = c2; *(Char*) a->Address(1, 0) = c3; *(Char*) a->Address(1, 1) = c4; *(Char*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char v, Int32 i, Int32 j) { Array* a = new Array(CharType, 2, 3); *(Char*) a->Address(0, 0) = c0; *(Char*) a->Address(0, 1) = c1; *(Char*) a->Address(0, 2) = c2; *(Char*) a->Address(1, 0) = c3; *(Char*) a->Address(1, 1) = c4; *(Char*) a->Address(1, 2) = c5; CharValue x(v); a->SetValue(&x, i, j); return a; }
	Char AMatrixGetChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Int32 i, Int32 j) { Array* a = new Array(CharType, 2, 3); *(Char*) a->Address(0, 0) = c0; *(Char*) a->Address(0, 1) = c1; *(Char*) a->Address(0, 2) = c2; *(Char*) a->Address(1, 0) = c3; *(Char*) a->Address(1, 1) = c4; *(Char*) a->Address(1, 2) = c5; return (Char) a->GetValue(i, j)->get_AsChar(); }
	Array* ACubeChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11) { Array* a = new Array(CharType, 2, 3, 2); *(Char*) a->Address(0, 0, 0) = c0; *(Char*) a->Address(0, 0, 1) = c1; *(Char*) a->Address(0, 1, 0) = c2; *(Char*) a->Address(0, 1, 1) = c3; *(Char*) a->Address(0, 2, 0) = c4; *(Char*) a->Address(0, 2, 1) = c5; *(Char*) a->Address(1, 0, 0) = c6; *(Char*) a->Address(1, 0, 1) = c7; *(Char*) a->Address(1, 1, 0) = c8; *(Char*) a->Address(1, 1, 1) = c9; *(Char*) a->Address(1, 2, 0) = c10; *(Char*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 2, 3, 2); *(Char*) a->Address(0, 0, 0) = c0; *(Char*) a->Address(0, 0, 1) = c1; *(Char*) a->Address(0, 1, 0) = c2; *(Char*) a->Address(0, 1, 1) = c3; *(Char*) a->Address(0, 2, 0) = c4; *(Char*) a->Address(0, 2, 1) = c5; *(Char*) a->Address(1, 0, 0) = c6; *(Char*) a->Address(1, 0, 1) = c7; *(Char*) a->Address(1, 1, 0) = c8; *(Char*) a->Address(1, 1, 1) = c9; *(Char*) a->Address(1, 2, 0) = c10; *(Char*) a->Address(1, 2, 1) = c11; CharValue x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Char v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 2, 3, 2); *(Char*) a->Address(0, 0, 0) = c0; *(Char*) a->Address(0, 0, 1) = c1; *(Char*) a->Address(0, 1, 0) = c2; *(Char*) a->Address(0, 1, 1) = c3; *(Char*) a->Address(0, 2, 0) = c4; *(Char*) a->Address(0, 2, 1) = c5; *(Char*) a->Address(1, 0, 0) = c6; *(Char*) a->Address(1, 0, 1) = c7; *(Char*) a->Address(1, 1, 0) = c8; *(Char*) a->Address(1, 1, 1) = c9; *(Char*) a->Address(1, 2, 0) = c10; *(Char*) a->Address(1, 2, 1) = c11; CharValue x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Char ACubeGetChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char c6, Char c7, Char c8, Char c9, Char c10, Char c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 2, 3, 2); *(Char*) a->Address(0, 0, 0) = c0; *(Char*) a->Address(0, 0, 1) = c1; *(Char*) a->Address(0, 1, 0) = c2; *(Char*) a->Address(0, 1, 1) = c3; *(Char*) a->Address(0, 2, 0) = c4; *(Char*) a->Address(0, 2, 1) = c5; *(Char*) a->Address(1, 0, 0) = c6; *(Char*) a->Address(1, 0, 1) = c7; *(Char*) a->Address(1, 1, 0) = c8; *(Char*) a->Address(1, 1, 1) = c9; *(Char*) a->Address(1, 2, 0) = c10; *(Char*) a->Address(1, 2, 1) = c11; return (Char) a->GetValue(i, j, k)->get_AsChar(); }
	Array* ACopyMatrixChar(Char c0, Char c1, Char c2, Char c3, Char c4, Char c5, Char d0, Char d1, Char d2, Char d3, Char d4, Char d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(CharType, 2, 3); Array* b = new Array(CharType, 3, 2); *(Char*) a->Address(0, 0) = c0; *(Char*) b->Address(0, 0) = d0; *(Char*) a->Address(0, 1) = c1; *(Char*) b->Address(0, 1) = d1; *(Char*) a->Address(0, 2) = c2; *(Char*) b->Address(1, 0) = d2; *(Char*) a->Address(1, 0) = c3; *(Char*) b->Address(1, 1) = d3; *(Char*) a->Address(1, 1) = c4; *(Char*) b->Address(2, 0) = d4; *(Char*) a->Address(1, 2) = c5; *(Char*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinInt163(Int16 c0, Int16 c1, Int16 c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 3); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 3); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 3); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 3); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 3); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int16 d3, Int16 d4, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 5); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; *(Int16*) b->Address(3) = d3; *(Int16*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearInt163(Int16 c0, Int16 c1, Int16 c2, Int32 st, Int32 ct) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Int16 ASetGetInt163(Int16 c0, Int16 c1, Int16 c2, Int16 v, Int32 i, Int32 j) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Int16Value x(v); a->SetValue(&x, i); return (Int16) a->GetValue(j)->get_AsInt32(); }
	Array* ASetInt163(Int16 c0, Int16 c1, Int16 c2, Int16 v, Int32 i) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Int16Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListInt163(Int16 c0, Int16 c1, Int16 c2, Int16 v, Int32 i) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Int16Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewInt163() { return new Array(Int16Type, 3); }
	Array* AMatrixInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5) { Array* a = new Array(Int16Type, 2, 3); *(Int16*) a->Address(0, 0) = c0; *(Int16*) a->Address(0, 1) = c1; *(Int16*) a->Address(0, 2) = c2; *(Int16*) a->Address(1, 0) = c3; *(Int16*) a->Address(1, 1) = c4; *(Int16*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int16 v, Int32 i, Int32 j) { Array* a = new Array(Int16Type, 2, 3); *(Int16*) a->Address(0, 0) = c0; *(Int16*) a->Address(0, 1) = c1; *(Int16*) a->Address(0, 2) = c2; *(Int16*) a->Address(1, 0) = c3; *(Int16*) a->Address(1, 1) = c4; *(Int16*) a->Address(1, 2) = c5; Int16Value x(v); a->SetValue(&x, i, j); return a; }
	Int16 AMatrixGetInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int32 i, Int32 j) { Array* a = new Array(Int16Type, 2, 3); *(Int16*) a->Address(0, 0) = c0; *(Int16*) a->Address(0, 1) = c1; *(Int16*) a->Address(0, 2) = c2; *(Int16*) a->Address(1, 0) = c3; *(Int16*) a->Address(1, 1) = c4; *(Int16*) a->Address(1, 2) = c5; return (Int16) a->GetValue(i, j)->get_AsInt32(); }
	Array* ACubeInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int16 c6, Int16 c7, Int16 c8, Int16 c9, Int16 c10, Int16 c11) { Array* a = new Array(Int16Type, 2, 3, 2); *(Int16*) a->Address(0, 0, 0) = c0; *(Int16*) a->Address(0, 0, 1) = c1; *(Int16*) a->Address(0, 1, 0) = c2; *(Int16*) a->Address(0, 1, 1) = c3; *(Int16*) a->Address(0, 2, 0) = c4; *(Int16*) a->Address(0, 2, 1) = c5; *(Int16*) a->Address(1, 0, 0) = c6; *(Int16*) a->Address(1, 0, 1) = c7; *(Int16*) a->Address(1, 1, 0) = c8; *(Int16*) a->Address(1, 1, 1) = c9; *(Int16*) a->Address(1, 2, 0) = c10; *(Int16*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int16 c6, Int16 c7, Int16 c8, Int16 c9, Int16 c10, Int16 c11, Int16 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 2, 3, 2); *(Int16*) a->Address(0, 0, 0) = c0; *(Int16*) a->Address(0, 0, 1) = c1; *(Int16*) a->Address(0, 1, 0) = c2; *(Int16*) a->Address(0, 1, 1) = c3; *(Int16*) a->Address(0, 2, 0) = c4; *(Int16*) a->Address(0, 2, 1) = c5; *(Int16*) a->Address(1, 0, 0) = c6; *(Int16*) a->Address(1, 0, 1) = c7; *(Int16*) a->Address(1, 1, 0) = c8; *(Int16*) a->Address(1, 1, 1) = c9; *(Int16*) a->Address(1, 2, 0) = c10; *(Int16*) a->Address(1, 2, 1) = c11; Int16Value x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int16 c6, Int16 c7, Int16 c8, Int16 c9, Int16 c10, Int16 c11, Int16 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 2, 3, 2); *(Int16*) a->Address(0, 0, 0) = c0; *(Int16*) a->Address(0, 0, 1) = c1; *(Int16*) a->Address(0, 1, 0) = c2; *(Int16*) a->Address(0, 1, 1) = c3; *(Int16*) a->Address(0, 2, 0) = c4; *(Int16*) a->Address(0, 2, 1) = c5; *(Int16*) a->Address(1, 0, 0) = c6; *(Int16*) a->Address(1, 0, 1) = c7; *(Int16*) a->Address(1, 1, 0) = c8; *(Int16*) a->Address(1, 1, 1) = c9; *(Int16*) a->Address(1, 2, 0) = c10; *(Int16*) a->Address(1, 2, 1) = c11; Int16Value x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Int16 ACubeGetInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int16 c6, Int16 c7, Int16 c8, Int16 c9, Int16 c10, Int16 c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 2, 3, 2); *(Int16*) a->Address(0, 0, 0) = c0; *(Int16*) a->Address(0, 0, 1) = c1; *(Int16*) a->Address(0, 1, 0) = c2; *(Int16*) a->Address(0, 1, 1) = c3; *(Int16*) a->Address(0, 2, 0) = c4; *(Int16*) a->Address(0, 2, 1) = c5; *(Int16*) a->Address(1, 0, 0) = c6; *(Int16*) a->Address(1, 0, 1) = c7; *(Int16*) a->Address(1, 1, 0) = c8; *(Int16*) a->Address(1, 1, 1) = c9; *(Int16*) a->Address(1, 2, 0) = c10; *(Int16*) a->Address(1, 2, 1) = c11; return (Int16) a->GetValue(i, j, k)->get_AsInt32(); }
	Array* ACopyMatrixInt16(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 c4, Int16 c5, Int16 d0, Int16 d1, Int16 d2, Int16 d3, Int16 d4, Int16 d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 2, 3); Array* b = new Array(Int16Type, 3, 2); *(Int16*) a->Address(0, 0) = c0; *(Int16*) b->Address(0, 0) = d0; *(Int16*) a->Address(0, 1) = c1; *(Int16*) b->Address(0, 1) = d1; *(Int16*) a->Address(0, 2) = c2; *(Int16*) b->Address(1, 0) = d2; *(Int16*) a->Address(1, 0) = c3; *(Int16*) b->Address(1, 1) = d3; *(Int16*) a->Address(1, 1) = c4; *(Int16*) b->Address(2, 0) = d4; *(Int16*) a->Address(1, 2) = c5; *(Int16*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinUInt163(UInt16 c0, UInt16 c1, UInt16 c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 d0, UInt16 d1, UInt16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array* b = new Array(UInt16Type, 3); *(UInt16*) b->Address(0) = d0; *(UInt16*) b->Address(1) = d1; *(UInt16*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 d0, UInt16 d1, UInt16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array* b = new Array(UInt16Type, 3); *(UInt16*) b->Address(0) = d0; *(UInt16*) b->Address(1) = d1; *(UInt16*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 d0, UInt16 d1, UInt16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array* b = new Array(UInt16Type, 3); *(UInt16*) b->Address(0) = d0; *(UInt16*) b->Address(1) = d1; *(UInt16*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 d0, UInt16 d1, UInt16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array* b = new Array(UInt16Type, 3); *(UInt16*) b->Address(0) = d0; *(UInt16*) b->Address(1) = d1; *(UInt16*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 d0, UInt16 d1, UInt16 d2, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array* b = new Array(UInt16Type, 3); *(UInt16*) b->Address(0) = d0; *(UInt16*) b->Address(1) = d1; *(UInt16*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 d0, UInt16 d1, UInt16 d2, UInt16 d3, UInt16 d4, Int32 k) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array* b = new Array(UInt16Type, 5); *(UInt16*) b->Address(0) = d0; *(UInt16*) b->Address(1) = d1; *(UInt16*) b->Address(2) = d2; *(UInt16*) b->Address(3) = d3; *(UInt16*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearUInt163(UInt16 c0, UInt16 c1, UInt16 c2, Int32 st, Int32 ct) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	UInt16 ASetGetUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 v, Int32 i, Int32 j) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; UInt16Value x(v); a->SetValue(&x, i); return (UInt16) a->GetValue(j)->get_AsUInt32(); }
	Array* ASetUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 v, Int32 i) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; UInt16Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListUInt163(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 v, Int32 i) { Array* a = new Array(UInt16Type, 3); *(UInt16*) a->Address(0) = c0; *(UInt16*) a->Address(1) = c1; *(UInt16*) a->Address(2) = c2; UInt16Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewUInt163() { return new Array(UInt16Type, 3); }
	Array* AMatrixUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5) { Array* a = new Array(UInt16Type, 2, 3); *(UInt16*) a->Address(0, 0) = c0; *(UInt16*) a->Address(0, 1) = c1; *(UInt16*) a->Address(0, 2) = c2; *(UInt16*) a->Address(1, 0) = c3; *(UInt16*) a->Address(1, 1) = c4; *(UInt16*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, UInt16 v, Int32 i, Int32 j) { Array* a = new Array(UInt16Type, 2, 3); *(UInt16*) a->Address(0, 0) = c0; *(UInt16*) a->Address(0, 1) = c1; *(UInt16*) a->Address(0, 2) = c2; *(UInt16*) a->Address(1, 0) = c3; *(UInt16*) a->Address(1, 1) = c4; *(UInt16*) a->Address(1, 2) = c5; UInt16Value x(v); a->SetValue(&x, i, j); return a; }
	UInt16 AMatrixGetUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, Int32 i, Int32 j) { Array* a = new Array(UInt16Type, 2, 3); *(UInt16*) a->Address(0, 0) = c0; *(UInt16*) a->Address(0, 1) = c1; *(UInt16*) a->Address(0, 2) = c2; *(UInt16*) a->Address(1, 0) = c3; *(UInt16*) a->Address(1, 1) = c4; *(UInt16*) a->Address(1, 2) = c5; return (UInt16) a->GetValue(i, j)->get_AsUInt32(); }
	Array* ACubeUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, UInt16 c6, UInt16 c7, UInt16 c8, UInt16 c9, UInt16 c10, UInt16 c11) { Array* a = new Array(UInt16Type, 2, 3, 2); *(UInt16*) a->Address(0, 0, 0) = c0; *(UInt16*) a->Address(0, 0, 1) = c1; *(UInt16*) a->Address(0, 1, 0) = c2; *(UInt16*) a->Address(0, 1, 1) = c3; *(UInt16*) a->Address(0, 2, 0) = c4; *(UInt16*) a->Address(0, 2, 1) = c5; *(UInt16*) a->Address(1, 0, 0) = c6; *(UInt16*) a->Address(1, 0, 1) = c7; *(UInt16*) a->Address(1, 1, 0) = c8; *(UInt16*) a->Address(1, 1, 1) = c9; *(UInt16*) a->Address(1, 2, 0) = c10; *(UInt16*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, UInt16 c6, UInt16 c7, UInt16 c8, UInt16 c9, UInt16 c10, UInt16 c11, UInt16 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 2, 3, 2); *(UInt16*) a->Address(0, 0, 0) = c0; *(UInt16*) a->Address(0, 0, 1) = c1; *(UInt16*) a->Address(0, 1, 0) = c2; *(UInt16*) a->Address(0, 1, 1) = c3; *(UInt16*) a->Address(0, 2, 0) = c4; *(UInt16*) a->Address(0, 2, 1) = c5; *(UInt16*) a->Address(1, 0, 0) = c6; *(UInt16*) a->Address(1, 0, 1) = c7; *(UInt16*) a->Address(1, 1, 0) = c8; *(UInt16*) a->Address(1, 1, 1) = c9; *(UInt16*) a->Address(1, 2, 0) = c10; *(UInt16*) a->Address(1, 2, 1) = c11; UInt16Value x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, UInt16 c6, UInt16 c7, UInt16 c8, UInt16 c9, UInt16 c10, UInt16 c11, UInt16 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 2, 3, 2); *(UInt16*) a->Address(0, 0, 0) = c0; *(UInt16*) a->Address(0, 0, 1) = c1; *(UInt16*) a->Address(0, 1, 0) = c2; *(UInt16*) a->Address(0, 1, 1) = c3; *(UInt16*) a->Address(0, 2, 0) = c4; *(UInt16*) a->Address(0, 2, 1) = c5; *(UInt16*) a->Address(1, 0, 0) = c6; *(UInt16*) a->Address(1, 0, 1) = c7; *(UInt16*) a->Address(1, 1, 0) = c8; *(UInt16*) a->Address(1, 1, 1) = c9; *(UInt16*) a->Address(1, 2, 0) = c10; *(UInt16*) a->Address(1, 2, 1) = c11; UInt16Value x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	UInt16 ACubeGetUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, UInt16 c6, UInt16 c7, UInt16 c8, UInt16 c9, UInt16 c10, UInt16 c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 2, 3, 2); *(UInt16*) a->Address(0, 0, 0) = c0; *(UInt16*) a->Address(0, 0, 1) = c1; *(UInt16*) a->Address(0, 1, 0) = c2; *(UInt16*) a->Address(0, 1, 1) = c3; *(UInt16*) a->Address(0, 2, 0) = c4; *(UInt16*) a->Address(0, 2, 1) = c5; *(UInt16*) a->Address(1, 0, 0) = c6; *(UInt16*) a->Address(1, 0, 1) = c7; *(UInt16*) a->Address(1, 1, 0) = c8; *(UInt16*) a->Address(1, 1, 1) = c9; *(UInt16*) a->Address(1, 2, 0) = c10; *(UInt16*) a->Address(1, 2, 1) = c11; return (UInt16) a->GetValue(i, j, k)->get_AsUInt32(); }
	Array* ACopyMatrixUInt16(UInt16 c0, UInt16 c1, UInt16 c2, UInt16 c3, UInt16 c4, UInt16 c5, UInt16 d0, UInt16 d1, UInt16 d2, UInt16 d3, UInt16 d4, UInt16 d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt16Type, 2, 3); Array* b = new Array(UInt16Type, 3, 2); *(UInt16*) a->Address(0, 0) = c0; *(UInt16*) b->Address(0, 0) = d0; *(UInt16*) a->Address(0, 1) = c1; *(UInt16*) b->Address(0, 1) = d1; *(UInt16*) a->Address(0, 2) = c2; *(UInt16*) b->Address(1, 0) = d2; *(UInt16*) a->Address(1, 0) = c3; *(UInt16*) b->Address(1, 1) = d3; *(UInt16*) a->Address(1, 1) = c4; *(UInt16*) b->Address(2, 0) = d4; *(UInt16*) a->Address(1, 2) = c5; *(UInt16*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinInt323(Int32 c0, Int32 c1, Int32 c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 3); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 3); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 3); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 3); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 3); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 d4, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 5); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; *(Int32*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearInt323(Int32 c0, Int32 c1, Int32 c2, Int32 st, Int32 ct) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Int32 ASetGetInt323(Int32 c0, Int32 c1, Int32 c2, Int32 v, Int32 i, Int32 j) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Int32Value x(v); a->SetValue(&x, i); return (Int32) a->GetValue(j)->get_AsInt32(); }
	Array* ASetInt323(Int32 c0, Int32 c1, Int32 c2, Int32 v, Int32 i) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Int32Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListInt323(Int32 c0, Int32 c1, Int32 c2, Int32 v, Int32 i) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Int32Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewInt323() { return new Array(Int32Type, 3); }
	Array* ACopyWithinInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 4); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 4); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 4); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 4); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 4); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; Array::Copy(a, b, k); return b; }
	Array* ACopyToInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 d4, Int32 d5, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 6); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; *(Int32*) b->Address(4) = d4; *(Int32*) b->Address(5) = d5; a->CopyTo(b, k); return b; }
	Array* AClearInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 st, Int32 ct) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array::Clear(a, st, ct); return a; }
	Int32 ASetGetInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 v, Int32 i, Int32 j) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Int32Value x(v); a->SetValue(&x, i); return (Int32) a->GetValue(j)->get_AsInt32(); }
	Array* ASetInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 v, Int32 i) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Int32Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 v, Int32 i) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Int32Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewInt324() { return new Array(Int32Type, 4); }
	Array* AMatrixInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5) { Array* a = new Array(Int32Type, 2, 3); *(Int32*) a->Address(0, 0) = c0; *(Int32*) a->Address(0, 1) = c1; *(Int32*) a->Address(0, 2) = c2; *(Int32*) a->Address(1, 0) = c3; *(Int32*) a->Address(1, 1) = c4; *(Int32*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 v, Int32 i, Int32 j) { Array* a = new Array(Int32Type, 2, 3); *(Int32*) a->Address(0, 0) = c0; *(Int32*) a->Address(0, 1) = c1; *(Int32*) a->Address(0, 2) = c2; *(Int32*) a->Address(1, 0) = c3; *(Int32*) a->Address(1, 1) = c4; *(Int32*) a->Address(1, 2) = c5; Int32Value x(v); a->SetValue(&x, i, j); return a; }
	Int32 AMatrixGetInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 i, Int32 j) { Array* a = new Array(Int32Type, 2, 3); *(Int32*) a->Address(0, 0) = c0; *(Int32*) a->Address(0, 1) = c1; *(Int32*) a->Address(0, 2) = c2; *(Int32*) a->Address(1, 0) = c3; *(Int32*) a->Address(1, 1) = c4; *(Int32*) a->Address(1, 2) = c5; return (Int32) a->GetValue(i, j)->get_AsInt32(); }
	Array* ACubeInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 c6, Int32 c7, Int32 c8, Int32 c9, Int32 c10, Int32 c11) { Array* a = new Array(Int32Type, 2, 3, 2); *(Int32*) a->Address(0, 0, 0) = c0; *(Int32*) a->Address(0, 0, 1) = c1; *(Int32*) a->Address(0, 1, 0) = c2; *(Int32*) a->Address(0, 1, 1) = c3; *(Int32*) a->Address(0, 2, 0) = c4; *(Int32*) a->Address(0, 2, 1) = c5; *(Int32*) a->Address(1, 0, 0) = c6; *(Int32*) a->Address(1, 0, 1) = c7; *(Int32*) a->Address(1, 1, 0) = c8; *(Int32*) a->Address(1, 1, 1) = c9; *(Int32*) a->Address(1, 2, 0) = c10; *(Int32*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 c6, Int32 c7, Int32 c8, Int32 c9, Int32 c10, Int32 c11, Int32 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 2, 3, 2); *(Int32*) a->Address(0, 0, 0) = c0; *(Int32*) a->Address(0, 0, 1) = c1; *(Int32*) a->Address(0, 1, 0) = c2; *(Int32*) a->Address(0, 1, 1) = c3; *(Int32*) a->Address(0, 2, 0) = c4; *(Int32*) a->Address(0, 2, 1) = c5; *(Int32*) a->Address(1, 0, 0) = c6; *(Int32*) a->Address(1, 0, 1) = c7; *(Int32*) a->Address(1, 1, 0) = c8; *(Int32*) a->Address(1, 1, 1) = c9; *(Int32*) a->Address(1, 2, 0) = c10; *(Int32*) a->Address(1, 2, 1) = c11; Int32Value x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 c6, Int32 c7, Int32 c8, Int32 c9, Int32 c10, Int32 c11, Int32 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 2, 3, 2); *(Int32*) a->Address(0, 0, 0) = c0; *(Int32*) a->Address(0, 0, 1) = c1; *(Int32*) a->Address(0, 1, 0) = c2; *(Int32*) a->Address(0, 1, 1) = c3; *(Int32*) a->Address(0, 2, 0) = c4; *(Int32*) a->Address(0, 2, 1) = c5; *(Int32*) a->Address(1, 0, 0) = c6; *(Int32*) a->Address(1, 0, 1) = c7; *(Int32*) a->Address(1, 1, 0) = c8; *(Int32*) a->Address(1, 1, 1) = c9; *(Int32*) a->Address(1, 2, 0) = c10; *(Int32*) a->Address(1, 2, 1) = c11; Int32Value x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Int32 ACubeGetInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 c6, Int32 c7, Int32 c8, Int32 c9, Int32 c10, Int32 c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 2, 3, 2); *(Int32*) a->Address(0, 0, 0) = c0; *(Int32*) a->Address(0, 0, 1) = c1; *(Int32*) a->Address(0, 1, 0) = c2; *(Int32*) a->Address(0, 1, 1) = c3; *(Int32*) a->Address(0, 2, 0) = c4; *(Int32*) a->Address(0, 2, 1) = c5; *(Int32*) a->Address(1, 0, 0) = c6; *(Int32*) a->Address(1, 0, 1) = c7; *(Int32*) a->Address(1, 1, 0) = c8; *(Int32*) a->Address(1, 1, 1) = c9; *(Int32*) a->Address(1, 2, 0) = c10; *(Int32*) a->Address(1, 2, 1) = c11; return (Int32) a->GetValue(i, j, k)->get_AsInt32(); }
	Array* ACopyMatrixInt32(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 c4, Int32 c5, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 d4, Int32 d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 2, 3); Array* b = new Array(Int32Type, 3, 2); *(Int32*) a->Address(0, 0) = c0; *(Int32*) b->Address(0, 0) = d0; *(Int32*) a->Address(0, 1) = c1; *(Int32*) b->Address(0, 1) = d1; *(Int32*) a->Address(0, 2) = c2; *(Int32*) b->Address(1, 0) = d2; *(Int32*) a->Address(1, 0) = c3; *(Int32*) b->Address(1, 1) = d3; *(Int32*) a->Address(1, 1) = c4; *(Int32*) b->Address(2, 0) = d4; *(Int32*) a->Address(1, 2) = c5; *(Int32*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinUInt323(UInt32 c0, UInt32 c1, UInt32 c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 d0, UInt32 d1, UInt32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array* b = new Array(UInt32Type, 3); *(UInt32*) b->Address(0) = d0; *(UInt32*) b->Address(1) = d1; *(UInt32*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 d0, UInt32 d1, UInt32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array* b = new Array(UInt32Type, 3); *(UInt32*) b->Address(0) = d0; *(UInt32*) b->Address(1) = d1; *(UInt32*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 d0, UInt32 d1, UInt32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array* b = new Array(UInt32Type, 3); *(UInt32*) b->Address(0) = d0; *(UInt32*) b->Address(1) = d1; *(UInt32*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 d0, UInt32 d1, UInt32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array* b = new Array(UInt32Type, 3); *(UInt32*) b->Address(0) = d0; *(UInt32*) b->Address(1) = d1; *(UInt32*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 d0, UInt32 d1, UInt32 d2, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array* b = new Array(UInt32Type, 3); *(UInt32*) b->Address(0) = d0; *(UInt32*) b->Address(1) = d1; *(UInt32*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 d0, UInt32 d1, UInt32 d2, UInt32 d3, UInt32 d4, Int32 k) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array* b = new Array(UInt32Type, 5); *(UInt32*) b->Address(0) = d0; *(UInt32*) b->Address(1) = d1; *(UInt32*) b->Address(2) = d2; *(UInt32*) b->Address(3) = d3; *(UInt32*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearUInt323(UInt32 c0, UInt32 c1, UInt32 c2, Int32 st, Int32 ct) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	UInt32 ASetGetUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 v, Int32 i, Int32 j) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; UInt32Value x(v); a->SetValue(&x, i); return (UInt32) a->GetValue(j)->get_AsUInt32(); }
	Array* ASetUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 v, Int32 i) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; UInt32Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListUInt323(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 v, Int32 i) { Array* a = new Array(UInt32Type, 3); *(UInt32*) a->Address(0) = c0; *(UInt32*) a->Address(1) = c1; *(UInt32*) a->Address(2) = c2; UInt32Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewUInt323() { return new Array(UInt32Type, 3); }
	Array* AMatrixUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5) { Array* a = new Array(UInt32Type, 2, 3); *(UInt32*) a->Address(0, 0) = c0; *(UInt32*) a->Address(0, 1) = c1; *(UInt32*) a->Address(0, 2) = c2; *(UInt32*) a->Address(1, 0) = c3; *(UInt32*) a->Address(1, 1) = c4; *(UInt32*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, UInt32 v, Int32 i, Int32 j) { Array* a = new Array(UInt32Type, 2, 3); *(UInt32*) a->Address(0, 0) = c0; *(UInt32*) a->Address(0, 1) = c1; *(UInt32*) a->Address(0, 2) = c2; *(UInt32*) a->Address(1, 0) = c3; *(UInt32*) a->Address(1, 1) = c4; *(UInt32*) a->Address(1, 2) = c5; UInt32Value x(v); a->SetValue(&x, i, j); return a; }
	UInt32 AMatrixGetUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, Int32 i, Int32 j) { Array* a = new Array(UInt32Type, 2, 3); *(UInt32*) a->Address(0, 0) = c0; *(UInt32*) a->Address(0, 1) = c1; *(UInt32*) a->Address(0, 2) = c2; *(UInt32*) a->Address(1, 0) = c3; *(UInt32*) a->Address(1, 1) = c4; *(UInt32*) a->Address(1, 2) = c5; return (UInt32) a->GetValue(i, j)->get_AsUInt32(); }
	Array* ACubeUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, UInt32 c6, UInt32 c7, UInt32 c8, UInt32 c9, UInt32 c10, UInt32 c11) { Array* a = new Array(UInt32Type, 2, 3, 2); *(UInt32*) a->Address(0, 0, 0) = c0; *(UInt32*) a->Address(0, 0, 1) = c1; *(UInt32*) a->Address(0, 1, 0) = c2; *(UInt32*) a->Address(0, 1, 1) = c3; *(UInt32*) a->Address(0, 2, 0) = c4; *(UInt32*) a->Address(0, 2, 1) = c5; *(UInt32*) a->Address(1, 0, 0) = c6; *(UInt32*) a->Address(1, 0, 1) = c7; *(UInt32*) a->Address(1, 1, 0) = c8; *(UInt32*) a->Address(1, 1, 1) = c9; *(UInt32*) a->Address(1, 2, 0) = c10; *(UInt32*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, UInt32 c6, UInt32 c7, UInt32 c8, UInt32 c9, UInt32 c10, UInt32 c11, UInt32 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 2, 3, 2); *(UInt32*) a->Address(0, 0, 0) = c0; *(UInt32*) a->Address(0, 0, 1) = c1; *(UInt32*) a->Address(0, 1, 0) = c2; *(UInt32*) a->Address(0, 1, 1) = c3; *(UInt32*) a->Address(0, 2, 0) = c4; *(UInt32*) a->Address(0, 2, 1) = c5; *(UInt32*) a->Address(1, 0, 0) = c6; *(UInt32*) a->Address(1, 0, 1) = c7; *(UInt32*) a->Address(1, 1, 0) = c8; *(UInt32*) a->Address(1, 1, 1) = c9; *(UInt32*) a->Address(1, 2, 0) = c10; *(UInt32*) a->Address(1, 2, 1) = c11; UInt32Value x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, UInt32 c6, UInt32 c7, UInt32 c8, UInt32 c9, UInt32 c10, UInt32 c11, UInt32 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 2, 3, 2); *(UInt32*) a->Address(0, 0, 0) = c0; *(UInt32*) a->Address(0, 0, 1) = c1; *(UInt32*) a->Address(0, 1, 0) = c2; *(UInt32*) a->Address(0, 1, 1) = c3; *(UInt32*) a->Address(0, 2, 0) = c4; *(UInt32*) a->Address(0, 2, 1) = c5; *(UInt32*) a->Address(1, 0, 0) = c6; *(UInt32*) a->Address(1, 0, 1) = c7; *(UInt32*) a->Address(1, 1, 0) = c8; *(UInt32*) a->Address(1, 1, 1) = c9; *(UInt32*) a->Address(1, 2, 0) = c10; *(UInt32*) a->Address(1, 2, 1) = c11; UInt32Value x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	UInt32 ACubeGetUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, UInt32 c6, UInt32 c7, UInt32 c8, UInt32 c9, UInt32 c10, UInt32 c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 2, 3, 2); *(UInt32*) a->Address(0, 0, 0) = c0; *(UInt32*) a->Address(0, 0, 1) = c1; *(UInt32*) a->Address(0, 1, 0) = c2; *(UInt32*) a->Address(0, 1, 1) = c3; *(UInt32*) a->Address(0, 2, 0) = c4; *(UInt32*) a->Address(0, 2, 1) = c5; *(UInt32*) a->Address(1, 0, 0) = c6; *(UInt32*) a->Address(1, 0, 1) = c7; *(UInt32*) a->Address(1, 1, 0) = c8; *(UInt32*) a->Address(1, 1, 1) = c9; *(UInt32*) a->Address(1, 2, 0) = c10; *(UInt32*) a->Address(1, 2, 1) = c11; return (UInt32) a->GetValue(i, j, k)->get_AsUInt32(); }
	Array* ACopyMatrixUInt32(UInt32 c0, UInt32 c1, UInt32 c2, UInt32 c3, UInt32 c4, UInt32 c5, UInt32 d0, UInt32 d1, UInt32 d2, UInt32 d3, UInt32 d4, UInt32 d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt32Type, 2, 3); Array* b = new Array(UInt32Type, 3, 2); *(UInt32*) a->Address(0, 0) = c0; *(UInt32*) b->Address(0, 0) = d0; *(UInt32*) a->Address(0, 1) = c1; *(UInt32*) b->Address(0, 1) = d1; *(UInt32*) a->Address(0, 2) = c2; *(UInt32*) b->Address(1, 0) = d2; *(UInt32*) a->Address(1, 0) = c3; *(UInt32*) b->Address(1, 1) = d3; *(UInt32*) a->Address(1, 1) = c4; *(UInt32*) b->Address(2, 0) = d4; *(UInt32*) a->Address(1, 2) = c5; *(UInt32*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinInt643(Int64 c0, Int64 c1, Int64 c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 3); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 3); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 3); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 3); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 3); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int64 d4, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 5); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; *(Int64*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearInt643(Int64 c0, Int64 c1, Int64 c2, Int32 st, Int32 ct) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Int64 ASetGetInt643(Int64 c0, Int64 c1, Int64 c2, Int64 v, Int32 i, Int32 j) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Int64Value x(v); a->SetValue(&x, i); return (Int64) a->GetValue(j)->get_AsInt64(); }
	Array* ASetInt643(Int64 c0, Int64 c1, Int64 c2, Int64 v, Int32 i) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Int64Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListInt643(Int64 c0, Int64 c1, Int64 c2, Int64 v, Int32 i) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Int64Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewInt643() { return new Array(Int64Type, 3); }
	Array* ACopyWithinInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 4); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 4); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 4); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 4); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 4); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; Array::Copy(a, b, k); return b; }
	Array* ACopyToInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int64 d4, Int64 d5, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 6); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; *(Int64*) b->Address(4) = d4; *(Int64*) b->Address(5) = d5; a->CopyTo(b, k); return b; }
	Array* AClearInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int32 st, Int32 ct) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array::Clear(a, st, ct); return a; }
	Int64 ASetGetInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 v, Int32 i, Int32 j) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Int64Value x(v); a->SetValue(&x, i); return (Int64) a->GetValue(j)->get_AsInt64(); }
	Array* ASetInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 v, Int32 i) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Int64Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 v, Int32 i) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Int64Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewInt644() { return new Array(Int64Type, 4); }
	Array* AMatrixInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5) { Array* a = new Array(Int64Type, 2, 3); *(Int64*) a->Address(0, 0) = c0; *(Int64*) a->Address(0, 1) = c1; *(Int64*) a->Address(0, 2) = c2; *(Int64*) a->Address(1, 0) = c3; *(Int64*) a->Address(1, 1) = c4; *(Int64*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int64 v, Int32 i, Int32 j) { Array* a = new Array(Int64Type, 2, 3); *(Int64*) a->Address(0, 0) = c0; *(Int64*) a->Address(0, 1) = c1; *(Int64*) a->Address(0, 2) = c2; *(Int64*) a->Address(1, 0) = c3; *(Int64*) a->Address(1, 1) = c4; *(Int64*) a->Address(1, 2) = c5; Int64Value x(v); a->SetValue(&x, i, j); return a; }
	Int64 AMatrixGetInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int32 i, Int32 j) { Array* a = new Array(Int64Type, 2, 3); *(Int64*) a->Address(0, 0) = c0; *(Int64*) a->Address(0, 1) = c1; *(Int64*) a->Address(0, 2) = c2; *(Int64*) a->Address(1, 0) = c3; *(Int64*) a->Address(1, 1) = c4; *(Int64*) a->Address(1, 2) = c5; return (Int64) a->GetValue(i, j)->get_AsInt64(); }
	Array* ACubeInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int64 c6, Int64 c7, Int64 c8, Int64 c9, Int64 c10, Int64 c11) { Array* a = new Array(Int64Type, 2, 3, 2); *(Int64*) a->Address(0, 0, 0) = c0; *(Int64*) a->Address(0, 0, 1) = c1; *(Int64*) a->Address(0, 1, 0) = c2; *(Int64*) a->Address(0, 1, 1) = c3; *(Int64*) a->Address(0, 2, 0) = c4; *(Int64*) a->Address(0, 2, 1) = c5; *(Int64*) a->Address(1, 0, 0) = c6; *(Int64*) a->Address(1, 0, 1) = c7; *(Int64*) a->Address(1, 1, 0) = c8; *(Int64*) a->Address(1, 1, 1) = c9; *(Int64*) a->Address(1, 2, 0) = c10; *(Int64*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int64 c6, Int64 c7, Int64 c8, Int64 c9, Int64 c10, Int64 c11, Int64 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 2, 3, 2); *(Int64*) a->Address(0, 0, 0) = c0; *(Int64*) a->Address(0, 0, 1) = c1; *(Int64*) a->Address(0, 1, 0) = c2; *(Int64*) a->Address(0, 1, 1) = c3; *(Int64*) a->Address(0, 2, 0) = c4; *(Int64*) a->Address(0, 2, 1) = c5; *(Int64*) a->Address(1, 0, 0) = c6; *(Int64*) a->Address(1, 0, 1) = c7; *(Int64*) a->Address(1, 1, 0) = c8; *(Int64*) a->Address(1, 1, 1) = c9; *(Int64*) a->Address(1, 2, 0) = c10; *(Int64*) a->Address(1, 2, 1) = c11; Int64Value x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int64 c6, Int64 c7, Int64 c8, Int64 c9, Int64 c10, Int64 c11, Int64 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 2, 3, 2); *(Int64*) a->Address(0, 0, 0) = c0; *(Int64*) a->Address(0, 0, 1) = c1; *(Int64*) a->Address(0, 1, 0) = c2; *(Int64*) a->Address(0, 1, 1) = c3; *(Int64*) a->Address(0, 2, 0) = c4; *(Int64*) a->Address(0, 2, 1) = c5; *(Int64*) a->Address(1, 0, 0) = c6; *(Int64*) a->Address(1, 0, 1) = c7; *(Int64*) a->Address(1, 1, 0) = c8; *(Int64*) a->Address(1, 1, 1) = c9; *(Int64*) a->Address(1, 2, 0) = c10; *(Int64*) a->Address(1, 2, 1) = c11; Int64Value x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Int64 ACubeGetInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int64 c6, Int64 c7, Int64 c8, Int64 c9, Int64 c10, Int64 c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 2, 3, 2); *(Int64*) a->Address(0, 0, 0) = c0; *(Int64*) a->Address(0, 0, 1) = c1; *(Int64*) a->Address(0, 1, 0) = c2; *(Int64*) a->Address(0, 1, 1) = c3; *(Int64*) a->Address(0, 2, 0) = c4; *(Int64*) a->Address(0, 2, 1) = c5; *(Int64*) a->Address(1, 0, 0) = c6; *(Int64*) a->Address(1, 0, 1) = c7; *(Int64*) a->Address(1, 1, 0) = c8; *(Int64*) a->Address(1, 1, 1) = c9; *(Int64*) a->Address(1, 2, 0) = c10; *(Int64*) a->Address(1, 2, 1) = c11; return (Int64) a->GetValue(i, j, k)->get_AsInt64(); }
	Array* ACopyMatrixInt64(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 c4, Int64 c5, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int64 d4, Int64 d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 2, 3); Array* b = new Array(Int64Type, 3, 2); *(Int64*) a->Address(0, 0) = c0; *(Int64*) b->Address(0, 0) = d0; *(Int64*) a->Address(0, 1) = c1; *(Int64*) b->Address(0, 1) = d1; *(Int64*) a->Address(0, 2) = c2; *(Int64*) b->Address(1, 0) = d2; *(Int64*) a->Address(1, 0) = c3; *(Int64*) b->Address(1, 1) = d3; *(Int64*) a->Address(1, 1) = c4; *(Int64*) b->Address(2, 0) = d4; *(Int64*) a->Address(1, 2) = c5; *(Int64*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinUInt643(UInt64 c0, UInt64 c1, UInt64 c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 d0, UInt64 d1, UInt64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array* b = new Array(UInt64Type, 3); *(UInt64*) b->Address(0) = d0; *(UInt64*) b->Address(1) = d1; *(UInt64*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 d0, UInt64 d1, UInt64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array* b = new Array(UInt64Type, 3); *(UInt64*) b->Address(0) = d0; *(UInt64*) b->Address(1) = d1; *(UInt64*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 d0, UInt64 d1, UInt64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array* b = new Array(UInt64Type, 3); *(UInt64*) b->Address(0) = d0; *(UInt64*) b->Address(1) = d1; *(UInt64*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 d0, UInt64 d1, UInt64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array* b = new Array(UInt64Type, 3); *(UInt64*) b->Address(0) = d0; *(UInt64*) b->Address(1) = d1; *(UInt64*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 d0, UInt64 d1, UInt64 d2, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array* b = new Array(UInt64Type, 3); *(UInt64*) b->Address(0) = d0; *(UInt64*) b->Address(1) = d1; *(UInt64*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 d0, UInt64 d1, UInt64 d2, UInt64 d3, UInt64 d4, Int32 k) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array* b = new Array(UInt64Type, 5); *(UInt64*) b->Address(0) = d0; *(UInt64*) b->Address(1) = d1; *(UInt64*) b->Address(2) = d2; *(UInt64*) b->Address(3) = d3; *(UInt64*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearUInt643(UInt64 c0, UInt64 c1, UInt64 c2, Int32 st, Int32 ct) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	UInt64 ASetGetUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 v, Int32 i, Int32 j) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; UInt64Value x(v); a->SetValue(&x, i); return (UInt64) a->GetValue(j)->get_AsUInt64(); }
	Array* ASetUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 v, Int32 i) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; UInt64Value x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListUInt643(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 v, Int32 i) { Array* a = new Array(UInt64Type, 3); *(UInt64*) a->Address(0) = c0; *(UInt64*) a->Address(1) = c1; *(UInt64*) a->Address(2) = c2; UInt64Value x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewUInt643() { return new Array(UInt64Type, 3); }
	Array* AMatrixUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5) { Array* a = new Array(UInt64Type, 2, 3); *(UInt64*) a->Address(0, 0) = c0; *(UInt64*) a->Address(0, 1) = c1; *(UInt64*) a->Address(0, 2) = c2; *(UInt64*) a->Address(1, 0) = c3; *(UInt64*) a->Address(1, 1) = c4; *(UInt64*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, UInt64 v, Int32 i, Int32 j) { Array* a = new Array(UInt64Type, 2, 3); *(UInt64*) a->Address(0, 0) = c0; *(UInt64*) a->Address(0, 1) = c1; *(UInt64*) a->Address(0, 2) = c2; *(UInt64*) a->Address(1, 0) = c3; *(UInt64*) a->Address(1, 1) = c4; *(UInt64*) a->Address(1, 2) = c5; UInt64Value x(v); a->SetValue(&x, i, j); return a; }
	UInt64 AMatrixGetUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, Int32 i, Int32 j) { Array* a = new Array(UInt64Type, 2, 3); *(UInt64*) a->Address(0, 0) = c0; *(UInt64*) a->Address(0, 1) = c1; *(UInt64*) a->Address(0, 2) = c2; *(UInt64*) a->Address(1, 0) = c3; *(UInt64*) a->Address(1, 1) = c4; *(UInt64*) a->Address(1, 2) = c5; return (UInt64) a->GetValue(i, j)->get_AsUInt64(); }
	Array* ACubeUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, UInt64 c6, UInt64 c7, UInt64 c8, UInt64 c9, UInt64 c10, UInt64 c11) { Array* a = new Array(UInt64Type, 2, 3, 2); *(UInt64*) a->Address(0, 0, 0) = c0; *(UInt64*) a->Address(0, 0, 1) = c1; *(UInt64*) a->Address(0, 1, 0) = c2; *(UInt64*) a->Address(0, 1, 1) = c3; *(UInt64*) a->Address(0, 2, 0) = c4; *(UInt64*) a->Address(0, 2, 1) = c5; *(UInt64*) a->Address(1, 0, 0) = c6; *(UInt64*) a->Address(1, 0, 1) = c7; *(UInt64*) a->Address(1, 1, 0) = c8; *(UInt64*) a->Address(1, 1, 1) = c9; *(UInt64*) a->Address(1, 2, 0) = c10; *(UInt64*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, UInt64 c6, UInt64 c7, UInt64 c8, UInt64 c9, UInt64 c10, UInt64 c11, UInt64 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 2, 3, 2); *(UInt64*) a->Address(0, 0, 0) = c0; *(UInt64*) a->Address(0, 0, 1) = c1; *(UInt64*) a->Address(0, 1, 0) = c2; *(UInt64*) a->Address(0, 1, 1) = c3; *(UInt64*) a->Address(0, 2, 0) = c4; *(UInt64*) a->Address(0, 2, 1) = c5; *(UInt64*) a->Address(1, 0, 0) = c6; *(UInt64*) a->Address(1, 0, 1) = c7; *(UInt64*) a->Address(1, 1, 0) = c8; *(UInt64*) a->Address(1, 1, 1) = c9; *(UInt64*) a->Address(1, 2, 0) = c10; *(UInt64*) a->Address(1, 2, 1) = c11; UInt64Value x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, UInt64 c6, UInt64 c7, UInt64 c8, UInt64 c9, UInt64 c10, UInt64 c11, UInt64 v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 2, 3, 2); *(UInt64*) a->Address(0, 0, 0) = c0; *(UInt64*) a->Address(0, 0, 1) = c1; *(UInt64*) a->Address(0, 1, 0) = c2; *(UInt64*) a->Address(0, 1, 1) = c3; *(UInt64*) a->Address(0, 2, 0) = c4; *(UInt64*) a->Address(0, 2, 1) = c5; *(UInt64*) a->Address(1, 0, 0) = c6; *(UInt64*) a->Address(1, 0, 1) = c7; *(UInt64*) a->Address(1, 1, 0) = c8; *(UInt64*) a->Address(1, 1, 1) = c9; *(UInt64*) a->Address(1, 2, 0) = c10; *(UInt64*) a->Address(1, 2, 1) = c11; UInt64Value x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	UInt64 ACubeGetUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, UInt64 c6, UInt64 c7, UInt64 c8, UInt64 c9, UInt64 c10, UInt64 c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 2, 3, 2); *(UInt64*) a->Address(0, 0, 0) = c0; *(UInt64*) a->Address(0, 0, 1) = c1; *(UInt64*) a->Address(0, 1, 0) = c2; *(UInt64*) a->Address(0, 1, 1) = c3; *(UInt64*) a->Address(0, 2, 0) = c4; *(UInt64*) a->Address(0, 2, 1) = c5; *(UInt64*) a->Address(1, 0, 0) = c6; *(UInt64*) a->Address(1, 0, 1) = c7; *(UInt64*) a->Address(1, 1, 0) = c8; *(UInt64*) a->Address(1, 1, 1) = c9; *(UInt64*) a->Address(1, 2, 0) = c10; *(UInt64*) a->Address(1, 2, 1) = c11; return (UInt64) a->GetValue(i, j, k)->get_AsUInt64(); }
	Array* ACopyMatrixUInt64(UInt64 c0, UInt64 c1, UInt64 c2, UInt64 c3, UInt64 c4, UInt64 c5, UInt64 d0, UInt64 d1, UInt64 d2, UInt64 d3, UInt64 d4, UInt64 d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(UInt64Type, 2, 3); Array* b = new Array(UInt64Type, 3, 2); *(UInt64*) a->Address(0, 0) = c0; *(UInt64*) b->Address(0, 0) = d0; *(UInt64*) a->Address(0, 1) = c1; *(UInt64*) b->Address(0, 1) = d1; *(UInt64*) a->Address(0, 2) = c2; *(UInt64*) b->Address(1, 0) = d2; *(UInt64*) a->Address(1, 0) = c3; *(UInt64*) b->Address(1, 1) = d3; *(UInt64*) a->Address(1, 1) = c4; *(UInt64*) b->Address(2, 0) = d4; *(UInt64*) a->Address(1, 2) = c5; *(UInt64*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinSingle3(Single c0, Single c1, Single c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopySingle3(Single c0, Single c1, Single c2, Single d0, Single d1, Single d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array* b = new Array(SingleType, 3); *(Single*) b->Address(0) = d0; *(Single*) b->Address(1) = d1; *(Single*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceSingle3(Single c0, Single c1, Single c2, Single d0, Single d1, Single d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array* b = new Array(SingleType, 3); *(Single*) b->Address(0) = d0; *(Single*) b->Address(1) = d1; *(Single*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopySingle3(Single c0, Single c1, Single c2, Single d0, Single d1, Single d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array* b = new Array(SingleType, 3); *(Single*) b->Address(0) = d0; *(Single*) b->Address(1) = d1; *(Single*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceSingle3(Single c0, Single c1, Single c2, Single d0, Single d1, Single d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array* b = new Array(SingleType, 3); *(Single*) b->Address(0) = d0; *(Single*) b->Address(1) = d1; *(Single*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstSingle3(Single c0, Single c1, Single c2, Single d0, Single d1, Single d2, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array* b = new Array(SingleType, 3); *(Single*) b->Address(0) = d0; *(Single*) b->Address(1) = d1; *(Single*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToSingle3(Single c0, Single c1, Single c2, Single d0, Single d1, Single d2, Single d3, Single d4, Int32 k) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array* b = new Array(SingleType, 5); *(Single*) b->Address(0) = d0; *(Single*) b->Address(1) = d1; *(Single*) b->Address(2) = d2; *(Single*) b->Address(3) = d3; *(Single*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearSingle3(Single c0, Single c1, Single c2, Int32 st, Int32 ct) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Single ASetGetSingle3(Single c0, Single c1, Single c2, Single v, Int32 i, Int32 j) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; SingleValue x(v); a->SetValue(&x, i); return (Single) a->GetValue(j)->get_AsSingle(); }
	Array* ASetSingle3(Single c0, Single c1, Single c2, Single v, Int32 i) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; SingleValue x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListSingle3(Single c0, Single c1, Single c2, Single v, Int32 i) { Array* a = new Array(SingleType, 3); *(Single*) a->Address(0) = c0; *(Single*) a->Address(1) = c1; *(Single*) a->Address(2) = c2; SingleValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewSingle3() { return new Array(SingleType, 3); }
	Array* AMatrixSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5) { Array* a = new Array(SingleType, 2, 3); *(Single*) a->Address(0, 0) = c0; *(Single*) a->Address(0, 1) = c1; *(Single*) a->Address(0, 2) = c2; *(Single*) a->Address(1, 0) = c3; *(Single*) a->Address(1, 1) = c4; *(Single*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Single v, Int32 i, Int32 j) { Array* a = new Array(SingleType, 2, 3); *(Single*) a->Address(0, 0) = c0; *(Single*) a->Address(0, 1) = c1; *(Single*) a->Address(0, 2) = c2; *(Single*) a->Address(1, 0) = c3; *(Single*) a->Address(1, 1) = c4; *(Single*) a->Address(1, 2) = c5; SingleValue x(v); a->SetValue(&x, i, j); return a; }
	Single AMatrixGetSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Int32 i, Int32 j) { Array* a = new Array(SingleType, 2, 3); *(Single*) a->Address(0, 0) = c0; *(Single*) a->Address(0, 1) = c1; *(Single*) a->Address(0, 2) = c2; *(Single*) a->Address(1, 0) = c3; *(Single*) a->Address(1, 1) = c4; *(Single*) a->Address(1, 2) = c5; return (Single) a->GetValue(i, j)->get_AsSingle(); }
	Array* ACubeSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Single c6, Single c7, Single c8, Single c9, Single c10, Single c11) { Array* a = new Array(SingleType, 2, 3, 2); *(Single*) a->Address(0, 0, 0) = c0; *(Single*) a->Address(0, 0, 1) = c1; *(Single*) a->Address(0, 1, 0) = c2; *(Single*) a->Address(0, 1, 1) = c3; *(Single*) a->Address(0, 2, 0) = c4; *(Single*) a->Address(0, 2, 1) = c5; *(Single*) a->Address(1, 0, 0) = c6; *(Single*) a->Address(1, 0, 1) = c7; *(Single*) a->Address(1, 1, 0) = c8; *(Single*) a->Address(1, 1, 1) = c9; *(Single*) a->Address(1, 2, 0) = c10; *(Single*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Single c6, Single c7, Single c8, Single c9, Single c10, Single c11, Single v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 2, 3, 2); *(Single*) a->Address(0, 0, 0) = c0; *(Single*) a->Address(0, 0, 1) = c1; *(Single*) a->Address(0, 1, 0) = c2; *(Single*) a->Address(0, 1, 1) = c3; *(Single*) a->Address(0, 2, 0) = c4; *(Single*) a->Address(0, 2, 1) = c5; *(Single*) a->Address(1, 0, 0) = c6; *(Single*) a->Address(1, 0, 1) = c7; *(Single*) a->Address(1, 1, 0) = c8; *(Single*) a->Address(1, 1, 1) = c9; *(Single*) a->Address(1, 2, 0) = c10; *(Single*) a->Address(1, 2, 1) = c11; SingleValue x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Single c6, Single c7, Single c8, Single c9, Single c10, Single c11, Single v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 2, 3, 2); *(Single*) a->Address(0, 0, 0) = c0; *(Single*) a->Address(0, 0, 1) = c1; *(Single*) a->Address(0, 1, 0) = c2; *(Single*) a->Address(0, 1, 1) = c3; *(Single*) a->Address(0, 2, 0) = c4; *(Single*) a->Address(0, 2, 1) = c5; *(Single*) a->Address(1, 0, 0) = c6; *(Single*) a->Address(1, 0, 1) = c7; *(Single*) a->Address(1, 1, 0) = c8; *(Single*) a->Address(1, 1, 1) = c9; *(Single*) a->Address(1, 2, 0) = c10; *(Single*) a->Address(1, 2, 1) = c11; SingleValue x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Single ACubeGetSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Single c6, Single c7, Single c8, Single c9, Single c10, Single c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 2, 3, 2); *(Single*) a->Address(0, 0, 0) = c0; *(Single*) a->Address(0, 0, 1) = c1; *(Single*) a->Address(0, 1, 0) = c2; *(Single*) a->Address(0, 1, 1) = c3; *(Single*) a->Address(0, 2, 0) = c4; *(Single*) a->Address(0, 2, 1) = c5; *(Single*) a->Address(1, 0, 0) = c6; *(Single*) a->Address(1, 0, 1) = c7; *(Single*) a->Address(1, 1, 0) = c8; *(Single*) a->Address(1, 1, 1) = c9; *(Single*) a->Address(1, 2, 0) = c10; *(Single*) a->Address(1, 2, 1) = c11; return (Single) a->GetValue(i, j, k)->get_AsSingle(); }
	Array* ACopyMatrixSingle(Single c0, Single c1, Single c2, Single c3, Single c4, Single c5, Single d0, Single d1, Single d2, Single d3, Single d4, Single d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(SingleType, 2, 3); Array* b = new Array(SingleType, 3, 2); *(Single*) a->Address(0, 0) = c0; *(Single*) b->Address(0, 0) = d0; *(Single*) a->Address(0, 1) = c1; *(Single*) b->Address(0, 1) = d1; *(Single*) a->Address(0, 2) = c2; *(Single*) b->Address(1, 0) = d2; *(Single*) a->Address(1, 0) = c3; *(Single*) b->Address(1, 1) = d3; *(Single*) a->Address(1, 1) = c4; *(Single*) b->Address(2, 0) = d4; *(Single*) a->Address(1, 2) = c5; *(Single*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopyWithinDouble3(Double c0, Double c1, Double c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array::Copy(a, i, a, j, k); return a; }
	Array* ACopyDouble3(Double c0, Double c1, Double c2, Double d0, Double d1, Double d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array* b = new Array(DoubleType, 3); *(Double*) b->Address(0) = d0; *(Double*) b->Address(1) = d1; *(Double*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return b; }
	Array* ACopySourceDouble3(Double c0, Double c1, Double c2, Double d0, Double d1, Double d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array* b = new Array(DoubleType, 3); *(Double*) b->Address(0) = d0; *(Double*) b->Address(1) = d1; *(Double*) b->Address(2) = d2; Array::Copy(a, i, b, j, k); return a; }
	Array* AConstrainedCopyDouble3(Double c0, Double c1, Double c2, Double d0, Double d1, Double d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array* b = new Array(DoubleType, 3); *(Double*) b->Address(0) = d0; *(Double*) b->Address(1) = d1; *(Double*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return b; }
	Array* AConstrainedCopySourceDouble3(Double c0, Double c1, Double c2, Double d0, Double d1, Double d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array* b = new Array(DoubleType, 3); *(Double*) b->Address(0) = d0; *(Double*) b->Address(1) = d1; *(Double*) b->Address(2) = d2; Array::ConstrainedCopy(a, i, b, j, k); return a; }
	Array* ACopyFirstDouble3(Double c0, Double c1, Double c2, Double d0, Double d1, Double d2, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array* b = new Array(DoubleType, 3); *(Double*) b->Address(0) = d0; *(Double*) b->Address(1) = d1; *(Double*) b->Address(2) = d2; Array::Copy(a, b, k); return b; }
	Array* ACopyToDouble3(Double c0, Double c1, Double c2, Double d0, Double d1, Double d2, Double d3, Double d4, Int32 k) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array* b = new Array(DoubleType, 5); *(Double*) b->Address(0) = d0; *(Double*) b->Address(1) = d1; *(Double*) b->Address(2) = d2; *(Double*) b->Address(3) = d3; *(Double*) b->Address(4) = d4; a->CopyTo(b, k); return b; }
	Array* AClearDouble3(Double c0, Double c1, Double c2, Int32 st, Int32 ct) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; Array::Clear(a, st, ct); return a; }
	Double ASetGetDouble3(Double c0, Double c1, Double c2, Double v, Int32 i, Int32 j) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; DoubleValue x(v); a->SetValue(&x, i); return (Double) a->GetValue(j)->get_AsDouble(); }
	Array* ASetDouble3(Double c0, Double c1, Double c2, Double v, Int32 i) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; DoubleValue x(v); a->SetValue(&x, i); return a; }
	Array* ASetByListDouble3(Double c0, Double c1, Double c2, Double v, Int32 i) { Array* a = new Array(DoubleType, 3); *(Double*) a->Address(0) = c0; *(Double*) a->Address(1) = c1; *(Double*) a->Address(2) = c2; DoubleValue x(v); Array* l = new Array(Int32Type, 1); *(Int32*) l->Address(0) = i; a->SetValue(&x, l); return a; }
	Array* ANewDouble3() { return new Array(DoubleType, 3); }
	Array* AMatrixDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5) { Array* a = new Array(DoubleType, 2, 3); *(Double*) a->Address(0, 0) = c0; *(Double*) a->Address(0, 1) = c1; *(Double*) a->Address(0, 2) = c2; *(Double*) a->Address(1, 0) = c3; *(Double*) a->Address(1, 1) = c4; *(Double*) a->Address(1, 2) = c5; return a; }
	Array* AMatrixSetDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Double v, Int32 i, Int32 j) { Array* a = new Array(DoubleType, 2, 3); *(Double*) a->Address(0, 0) = c0; *(Double*) a->Address(0, 1) = c1; *(Double*) a->Address(0, 2) = c2; *(Double*) a->Address(1, 0) = c3; *(Double*) a->Address(1, 1) = c4; *(Double*) a->Address(1, 2) = c5; DoubleValue x(v); a->SetValue(&x, i, j); return a; }
	Double AMatrixGetDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Int32 i, Int32 j) { Array* a = new Array(DoubleType, 2, 3); *(Double*) a->Address(0, 0) = c0; *(Double*) a->Address(0, 1) = c1; *(Double*) a->Address(0, 2) = c2; *(Double*) a->Address(1, 0) = c3; *(Double*) a->Address(1, 1) = c4; *(Double*) a->Address(1, 2) = c5; return (Double) a->GetValue(i, j)->get_AsDouble(); }
	Array* ACubeDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Double c6, Double c7, Double c8, Double c9, Double c10, Double c11) { Array* a = new Array(DoubleType, 2, 3, 2); *(Double*) a->Address(0, 0, 0) = c0; *(Double*) a->Address(0, 0, 1) = c1; *(Double*) a->Address(0, 1, 0) = c2; *(Double*) a->Address(0, 1, 1) = c3; *(Double*) a->Address(0, 2, 0) = c4; *(Double*) a->Address(0, 2, 1) = c5; *(Double*) a->Address(1, 0, 0) = c6; *(Double*) a->Address(1, 0, 1) = c7; *(Double*) a->Address(1, 1, 0) = c8; *(Double*) a->Address(1, 1, 1) = c9; *(Double*) a->Address(1, 2, 0) = c10; *(Double*) a->Address(1, 2, 1) = c11; return a; }
	Array* ACubeSetDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Double c6, Double c7, Double c8, Double c9, Double c10, Double c11, Double v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 2, 3, 2); *(Double*) a->Address(0, 0, 0) = c0; *(Double*) a->Address(0, 0, 1) = c1; *(Double*) a->Address(0, 1, 0) = c2; *(Double*) a->Address(0, 1, 1) = c3; *(Double*) a->Address(0, 2, 0) = c4; *(Double*) a->Address(0, 2, 1) = c5; *(Double*) a->Address(1, 0, 0) = c6; *(Double*) a->Address(1, 0, 1) = c7; *(Double*) a->Address(1, 1, 0) = c8; *(Double*) a->Address(1, 1, 1) = c9; *(Double*) a->Address(1, 2, 0) = c10; *(Double*) a->Address(1, 2, 1) = c11; DoubleValue x(v); a->SetValue(&x, i, j, k); return a; }
	Array* ACubeSetByListDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Double c6, Double c7, Double c8, Double c9, Double c10, Double c11, Double v, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 2, 3, 2); *(Double*) a->Address(0, 0, 0) = c0; *(Double*) a->Address(0, 0, 1) = c1; *(Double*) a->Address(0, 1, 0) = c2; *(Double*) a->Address(0, 1, 1) = c3; *(Double*) a->Address(0, 2, 0) = c4; *(Double*) a->Address(0, 2, 1) = c5; *(Double*) a->Address(1, 0, 0) = c6; *(Double*) a->Address(1, 0, 1) = c7; *(Double*) a->Address(1, 1, 0) = c8; *(Double*) a->Address(1, 1, 1) = c9; *(Double*) a->Address(1, 2, 0) = c10; *(Double*) a->Address(1, 2, 1) = c11; DoubleValue x(v); Array* l = new Array(Int32Type, 3); *(Int32*) l->Address(0) = i; *(Int32*) l->Address(1) = j; *(Int32*) l->Address(2) = k; a->SetValue(&x, l); return a; }
	Double ACubeGetDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Double c6, Double c7, Double c8, Double c9, Double c10, Double c11, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 2, 3, 2); *(Double*) a->Address(0, 0, 0) = c0; *(Double*) a->Address(0, 0, 1) = c1; *(Double*) a->Address(0, 1, 0) = c2; *(Double*) a->Address(0, 1, 1) = c3; *(Double*) a->Address(0, 2, 0) = c4; *(Double*) a->Address(0, 2, 1) = c5; *(Double*) a->Address(1, 0, 0) = c6; *(Double*) a->Address(1, 0, 1) = c7; *(Double*) a->Address(1, 1, 0) = c8; *(Double*) a->Address(1, 1, 1) = c9; *(Double*) a->Address(1, 2, 0) = c10; *(Double*) a->Address(1, 2, 1) = c11; return (Double) a->GetValue(i, j, k)->get_AsDouble(); }
	Array* ACopyMatrixDouble(Double c0, Double c1, Double c2, Double c3, Double c4, Double c5, Double d0, Double d1, Double d2, Double d3, Double d4, Double d5, Int32 i, Int32 j, Int32 k) { Array* a = new Array(DoubleType, 2, 3); Array* b = new Array(DoubleType, 3, 2); *(Double*) a->Address(0, 0) = c0; *(Double*) b->Address(0, 0) = d0; *(Double*) a->Address(0, 1) = c1; *(Double*) b->Address(0, 1) = d1; *(Double*) a->Address(0, 2) = c2; *(Double*) b->Address(1, 0) = d2; *(Double*) a->Address(1, 0) = c3; *(Double*) b->Address(1, 1) = d3; *(Double*) a->Address(1, 1) = c4; *(Double*) b->Address(2, 0) = d4; *(Double*) a->Address(1, 2) = c5; *(Double*) b->Address(2, 1) = d5; Array::Copy(a, i, b, j, k); return b; }
	Int32 AIndexOf1(Char c0, Char v0, Int32 st, Int32 ct) { Array* a = new Array(ObjectType, 1); *(Object**) a->Address(0) = new CharValue(c0); CharValue x(v0); return Array::IndexOf(a, &x, st, ct); }
	Int32 AIndexOfString1(Char c0, Char v0) { Array* a = new Array(StringType, 1); *(String**) a->Address(0) = new String(c0, 1); return Array::IndexOf(a, new String(v0, 1)); }
	Int32 AIndexOfNull1(Char c0) { Array* a = new Array(ObjectType, 2); *(Object**) a->Address(0) = new CharValue(c0); return Array::IndexOf(a, nullptr); }
	Int32 AIndexOf2(Char c0, Char c1, Char v0, Int32 st, Int32 ct) { Array* a = new Array(ObjectType, 2); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); CharValue x(v0); return Array::IndexOf(a, &x, st, ct); }
	Int32 AIndexOfString2(Char c0, Char c1, Char v0) { Array* a = new Array(StringType, 2); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); return Array::IndexOf(a, new String(v0, 1)); }
	Int32 AIndexOfNull2(Char c0, Char c1) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); return Array::IndexOf(a, nullptr); }
	Int32 AIndexOf3(Char c0, Char c1, Char c2, Char v0, Int32 st, Int32 ct) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); CharValue x(v0); return Array::IndexOf(a, &x, st, ct); }
	Int32 AIndexOfString3(Char c0, Char c1, Char c2, Char v0) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); return Array::IndexOf(a, new String(v0, 1)); }
	Int32 AIndexOfNull3(Char c0, Char c1, Char c2) { Array* a = new Array(ObjectType, 4); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); return Array::IndexOf(a, nullptr); }
	Array* ABlockCopyWithin3(Byte c0, Byte c1, Byte c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Buffer::BlockCopy(a, i, a, j, k); return a; }
	Array* ABlockCopy3(Byte c0, Byte c1, Byte c2, Byte d0, Byte d1, Byte d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Array* b = new Array(ByteType, 3); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; Buffer::BlockCopy(a, i, b, j, k); return b; }
	Byte ABufferGet3(Byte c0, Byte c1, Byte c2, Int32 i) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; return Buffer::GetByte(a, i); }
	Array* ABufferSet3(Byte c0, Byte c1, Byte c2, Byte v, Int32 i) { Array* a = new Array(ByteType, 3); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; Buffer::SetByte(a, i, v); return a; }
	Array* ABlockCopyInt163(Int16 c0, Int16 c1, Int16 c2, Int16 d0, Int16 d1, Int16 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 3); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; Array* b = new Array(Int16Type, 3); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; Buffer::BlockCopy(a, i * 2, b, j * 2, k * 2); return b; }
	Int32 AByteLengthInt163() { return Buffer::ByteLength(new Array(Int16Type, 3)); }
	Array* ABlockCopyInt323(Int32 c0, Int32 c1, Int32 c2, Int32 d0, Int32 d1, Int32 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 3); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; Array* b = new Array(Int32Type, 3); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; Buffer::BlockCopy(a, i * 4, b, j * 4, k * 4); return b; }
	Int32 AByteLengthInt323() { return Buffer::ByteLength(new Array(Int32Type, 3)); }
	Array* ABlockCopyInt643(Int64 c0, Int64 c1, Int64 c2, Int64 d0, Int64 d1, Int64 d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 3); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; Array* b = new Array(Int64Type, 3); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; Buffer::BlockCopy(a, i * 8, b, j * 8, k * 8); return b; }
	Int32 AByteLengthInt643() { return Buffer::ByteLength(new Array(Int64Type, 3)); }
	Array* ABlockCopyWithin4(Byte c0, Byte c1, Byte c2, Byte c3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Buffer::BlockCopy(a, i, a, j, k); return a; }
	Array* ABlockCopy4(Byte c0, Byte c1, Byte c2, Byte c3, Byte d0, Byte d1, Byte d2, Byte d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Array* b = new Array(ByteType, 4); *(Byte*) b->Address(0) = d0; *(Byte*) b->Address(1) = d1; *(Byte*) b->Address(2) = d2; *(Byte*) b->Address(3) = d3; Buffer::BlockCopy(a, i, b, j, k); return b; }
	Byte ABufferGet4(Byte c0, Byte c1, Byte c2, Byte c3, Int32 i) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; return Buffer::GetByte(a, i); }
	Array* ABufferSet4(Byte c0, Byte c1, Byte c2, Byte c3, Byte v, Int32 i) { Array* a = new Array(ByteType, 4); *(Byte*) a->Address(0) = c0; *(Byte*) a->Address(1) = c1; *(Byte*) a->Address(2) = c2; *(Byte*) a->Address(3) = c3; Buffer::SetByte(a, i, v); return a; }
	Array* ABlockCopyInt164(Int16 c0, Int16 c1, Int16 c2, Int16 c3, Int16 d0, Int16 d1, Int16 d2, Int16 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int16Type, 4); *(Int16*) a->Address(0) = c0; *(Int16*) a->Address(1) = c1; *(Int16*) a->Address(2) = c2; *(Int16*) a->Address(3) = c3; Array* b = new Array(Int16Type, 4); *(Int16*) b->Address(0) = d0; *(Int16*) b->Address(1) = d1; *(Int16*) b->Address(2) = d2; *(Int16*) b->Address(3) = d3; Buffer::BlockCopy(a, i * 2, b, j * 2, k * 2); return b; }
	Int32 AByteLengthInt164() { return Buffer::ByteLength(new Array(Int16Type, 4)); }
	Array* ABlockCopyInt324(Int32 c0, Int32 c1, Int32 c2, Int32 c3, Int32 d0, Int32 d1, Int32 d2, Int32 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int32Type, 4); *(Int32*) a->Address(0) = c0; *(Int32*) a->Address(1) = c1; *(Int32*) a->Address(2) = c2; *(Int32*) a->Address(3) = c3; Array* b = new Array(Int32Type, 4); *(Int32*) b->Address(0) = d0; *(Int32*) b->Address(1) = d1; *(Int32*) b->Address(2) = d2; *(Int32*) b->Address(3) = d3; Buffer::BlockCopy(a, i * 4, b, j * 4, k * 4); return b; }
	Int32 AByteLengthInt324() { return Buffer::ByteLength(new Array(Int32Type, 4)); }
	Array* ABlockCopyInt644(Int64 c0, Int64 c1, Int64 c2, Int64 c3, Int64 d0, Int64 d1, Int64 d2, Int64 d3, Int32 i, Int32 j, Int32 k) { Array* a = new Array(Int64Type, 4); *(Int64*) a->Address(0) = c0; *(Int64*) a->Address(1) = c1; *(Int64*) a->Address(2) = c2; *(Int64*) a->Address(3) = c3; Array* b = new Array(Int64Type, 4); *(Int64*) b->Address(0) = d0; *(Int64*) b->Address(1) = d1; *(Int64*) b->Address(2) = d2; *(Int64*) b->Address(3) = d3; Buffer::BlockCopy(a, i * 8, b, j * 8, k * 8); return b; }
	Int32 AByteLengthInt644() { return Buffer::ByteLength(new Array(Int64Type, 4)); }
	Char ACopyStringTo0(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array* b = new Array(StringType, 3); *(String**) b->Address(0) = new String(d0, 1); *(String**) b->Address(1) = new String(d1, 1); *(String**) b->Address(2) = new String(d2, 1); Array::Copy(a, i, b, j, k); return ((String*) b->GetValue(0))->get_Chars(0); }
	Char ACopyStringWithin0(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array::Copy(a, i, a, j, k); return ((String*) a->GetValue(0))->get_Chars(0); }
	Char ACopyAllStringTo0(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array* b = new Array(StringType, 3); *(String**) b->Address(0) = new String(d0, 1); *(String**) b->Address(1) = new String(d1, 1); *(String**) b->Address(2) = new String(d2, 1); a->CopyTo(b, 0); return ((String*) b->GetValue(0))->get_Chars(0); }
	Char ASetString0(Char c0, Char c1, Char c2, Char v0, Int32 i) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); a->SetValue(new String(v0, 1), i); return ((String*) a->GetValue(0))->get_Chars(0); }
	Boolean AClearString0(Char c0, Char c1, Char c2, Int32 i, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array::Clear(a, i, k); return a->GetValue(0) == nullptr; }
	Boolean ANewString0() { return (new Array(StringType, 3))->GetValue(0) == nullptr; }
	Char ACopyStringTo1(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array* b = new Array(StringType, 3); *(String**) b->Address(0) = new String(d0, 1); *(String**) b->Address(1) = new String(d1, 1); *(String**) b->Address(2) = new String(d2, 1); Array::Copy(a, i, b, j, k); return ((String*) b->GetValue(1))->get_Chars(0); }
	Char ACopyStringWithin1(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array::Copy(a, i, a, j, k); return ((String*) a->GetValue(1))->get_Chars(0); }
	Char ACopyAllStringTo1(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array* b = new Array(StringType, 3); *(String**) b->Address(0) = new String(d0, 1); *(String**) b->Address(1) = new String(d1, 1); *(String**) b->Address(2) = new String(d2, 1); a->CopyTo(b, 0); return ((String*) b->GetValue(1))->get_Chars(0); }
	Char ASetString1(Char c0, Char c1, Char c2, Char v0, Int32 i) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); a->SetValue(new String(v0, 1), i); return ((String*) a->GetValue(1))->get_Chars(0); }
	Boolean AClearString1(Char c0, Char c1, Char c2, Int32 i, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array::Clear(a, i, k); return a->GetValue(1) == nullptr; }
	Boolean ANewString1() { return (new Array(StringType, 3))->GetValue(1) == nullptr; }
	Char ACopyStringTo2(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array* b = new Array(StringType, 3); *(String**) b->Address(0) = new String(d0, 1); *(String**) b->Address(1) = new String(d1, 1); *(String**) b->Address(2) = new String(d2, 1); Array::Copy(a, i, b, j, k); return ((String*) b->GetValue(2))->get_Chars(0); }
	Char ACopyStringWithin2(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array::Copy(a, i, a, j, k); return ((String*) a->GetValue(2))->get_Chars(0); }
	Char ACopyAllStringTo2(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array* b = new Array(StringType, 3); *(String**) b->Address(0) = new String(d0, 1); *(String**) b->Address(1) = new String(d1, 1); *(String**) b->Address(2) = new String(d2, 1); a->CopyTo(b, 0); return ((String*) b->GetValue(2))->get_Chars(0); }
	Char ASetString2(Char c0, Char c1, Char c2, Char v0, Int32 i) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); a->SetValue(new String(v0, 1), i); return ((String*) a->GetValue(2))->get_Chars(0); }
	Boolean AClearString2(Char c0, Char c1, Char c2, Int32 i, Int32 k) { Array* a = new Array(StringType, 3); *(String**) a->Address(0) = new String(c0, 1); *(String**) a->Address(1) = new String(c1, 1); *(String**) a->Address(2) = new String(c2, 1); Array::Clear(a, i, k); return a->GetValue(2) == nullptr; }
	Boolean ANewString2() { return (new Array(StringType, 3))->GetValue(2) == nullptr; }
	Char ACopyObjectTo0(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array* b = new Array(ObjectType, 3); *(Object**) b->Address(0) = new CharValue(d0); *(Object**) b->Address(1) = new CharValue(d1); *(Object**) b->Address(2) = new CharValue(d2); Array::Copy(a, i, b, j, k); return ((CharValue*) b->GetValue(0))->get_AsChar(); }
	Char ACopyObjectWithin0(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array::Copy(a, i, a, j, k); return ((CharValue*) a->GetValue(0))->get_AsChar(); }
	Char ACopyAllObjectTo0(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array* b = new Array(ObjectType, 3); *(Object**) b->Address(0) = new CharValue(d0); *(Object**) b->Address(1) = new CharValue(d1); *(Object**) b->Address(2) = new CharValue(d2); a->CopyTo(b, 0); return ((CharValue*) b->GetValue(0))->get_AsChar(); }
	Char ASetObject0(Char c0, Char c1, Char c2, Char v0, Int32 i) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); a->SetValue(new CharValue(v0), i); return ((CharValue*) a->GetValue(0))->get_AsChar(); }
	Boolean AClearObject0(Char c0, Char c1, Char c2, Int32 i, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array::Clear(a, i, k); return a->GetValue(0) == nullptr; }
	Boolean ANewObject0() { return (new Array(ObjectType, 3))->GetValue(0) == nullptr; }
	Char ACopyObjectTo1(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array* b = new Array(ObjectType, 3); *(Object**) b->Address(0) = new CharValue(d0); *(Object**) b->Address(1) = new CharValue(d1); *(Object**) b->Address(2) = new CharValue(d2); Array::Copy(a, i, b, j, k); return ((CharValue*) b->GetValue(1))->get_AsChar(); }
	Char ACopyObjectWithin1(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array::Copy(a, i, a, j, k); return ((CharValue*) a->GetValue(1))->get_AsChar(); }
	Char ACopyAllObjectTo1(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array* b = new Array(ObjectType, 3); *(Object**) b->Address(0) = new CharValue(d0); *(Object**) b->Address(1) = new CharValue(d1); *(Object**) b->Address(2) = new CharValue(d2); a->CopyTo(b, 0); return ((CharValue*) b->GetValue(1))->get_AsChar(); }
	Char ASetObject1(Char c0, Char c1, Char c2, Char v0, Int32 i) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); a->SetValue(new CharValue(v0), i); return ((CharValue*) a->GetValue(1))->get_AsChar(); }
	Boolean AClearObject1(Char c0, Char c1, Char c2, Int32 i, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array::Clear(a, i, k); return a->GetValue(1) == nullptr; }
	Boolean ANewObject1() { return (new Array(ObjectType, 3))->GetValue(1) == nullptr; }
	Char ACopyObjectTo2(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array* b = new Array(ObjectType, 3); *(Object**) b->Address(0) = new CharValue(d0); *(Object**) b->Address(1) = new CharValue(d1); *(Object**) b->Address(2) = new CharValue(d2); Array::Copy(a, i, b, j, k); return ((CharValue*) b->GetValue(2))->get_AsChar(); }
	Char ACopyObjectWithin2(Char c0, Char c1, Char c2, Int32 i, Int32 j, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array::Copy(a, i, a, j, k); return ((CharValue*) a->GetValue(2))->get_AsChar(); }
	Char ACopyAllObjectTo2(Char c0, Char c1, Char c2, Char d0, Char d1, Char d2) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array* b = new Array(ObjectType, 3); *(Object**) b->Address(0) = new CharValue(d0); *(Object**) b->Address(1) = new CharValue(d1); *(Object**) b->Address(2) = new CharValue(d2); a->CopyTo(b, 0); return ((CharValue*) b->GetValue(2))->get_AsChar(); }
	Char ASetObject2(Char c0, Char c1, Char c2, Char v0, Int32 i) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); a->SetValue(new CharValue(v0), i); return ((CharValue*) a->GetValue(2))->get_AsChar(); }
	Boolean AClearObject2(Char c0, Char c1, Char c2, Int32 i, Int32 k) { Array* a = new Array(ObjectType, 3); *(Object**) a->Address(0) = new CharValue(c0); *(Object**) a->Address(1) = new CharValue(c1); *(Object**) a->Address(2) = new CharValue(c2); Array::Clear(a, i, k); return a->GetValue(2) == nullptr; }
	Boolean ANewObject2() { return (new Array(ObjectType, 3))->GetValue(2) == nullptr; }
	Array* AManySameByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; return a; }
	Array* AManyCopyByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array* b = new Array(ByteType, 40); Array::Copy(a, b, 40); return b; }
	Array* AManyCopyPartByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array* b = new Array(ByteType, 40); Array::Copy(a, 16, b, 1, 23); return b; }
	Array* AManyConstrainedByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array* b = new Array(ByteType, 40); Array::ConstrainedCopy(a, 16, b, 1, 23); return b; }
	Array* AManyCopyToByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array* b = new Array(ByteType, 44); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 1, 39); return a; }
	Array* AManyShiftDownByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 1, a, 0, 39); return a; }
	Array* AManyClearByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Clear(a, 2, 36); return a; }
	Array* AManyBlockByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array* b = new Array(ByteType, 40); Buffer::BlockCopy(a, 16, b, 1, 23); return b; }
	Array* AManyBlockUpByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 1, 39); return a; }
	Array* AManyShiftUp2xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 2, 38); return a; }
	Array* AManyBlockUp2xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 2, 38); return a; }
	Array* AManyShiftDown2xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 2, a, 0, 38); return a; }
	Array* AManyBlockDown2xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 2, a, 0, 38); return a; }
	Array* AManyShiftUp3xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 3, 37); return a; }
	Array* AManyBlockUp3xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 3, 37); return a; }
	Array* AManyShiftDown3xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 3, a, 0, 37); return a; }
	Array* AManyBlockDown3xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 3, a, 0, 37); return a; }
	Array* AManyShiftUp7xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 7, 33); return a; }
	Array* AManyBlockUp7xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 7, 33); return a; }
	Array* AManyShiftDown7xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 7, a, 0, 33); return a; }
	Array* AManyBlockDown7xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 7, a, 0, 33); return a; }
	Array* AManyShiftUp8xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 8, 32); return a; }
	Array* AManyBlockUp8xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 8, 32); return a; }
	Array* AManyShiftDown8xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 8, a, 0, 32); return a; }
	Array* AManyBlockDown8xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 8, a, 0, 32); return a; }
	Array* AManyShiftUp16xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 16, 24); return a; }
	Array* AManyBlockUp16xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 16, 24); return a; }
	Array* AManyShiftDown16xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 16, a, 0, 24); return a; }
	Array* AManyBlockDown16xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 16, a, 0, 24); return a; }
	Array* AManyShiftUp20xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 0, a, 20, 20); return a; }
	Array* AManyBlockUp20xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 20, 20); return a; }
	Array* AManyShiftDown20xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Array::Copy(a, 20, a, 0, 20); return a; }
	Array* AManyBlockDown20xByte40(Byte c0, Byte c1) { Array* a = new Array(ByteType, 40); for (Int32 i = 0; i < 40; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(17) = c0; *(Byte*) a->Address(39) = c1; Buffer::BlockCopy(a, 20, a, 0, 20); return a; }
	Array* AManySameByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; return a; }
	Array* AManyCopyByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array* b = new Array(ByteType, 100); Array::Copy(a, b, 100); return b; }
	Array* AManyCopyPartByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array* b = new Array(ByteType, 100); Array::Copy(a, 63, b, 1, 36); return b; }
	Array* AManyConstrainedByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array* b = new Array(ByteType, 100); Array::ConstrainedCopy(a, 63, b, 1, 36); return b; }
	Array* AManyCopyToByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array* b = new Array(ByteType, 104); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 0, a, 1, 99); return a; }
	Array* AManyShiftDownByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 1, a, 0, 99); return a; }
	Array* AManyClearByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Clear(a, 2, 96); return a; }
	Array* AManyBlockByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array* b = new Array(ByteType, 100); Buffer::BlockCopy(a, 63, b, 1, 36); return b; }
	Array* AManyBlockUpByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 1, 99); return a; }
	Array* AManyShiftUp8xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 0, a, 8, 92); return a; }
	Array* AManyBlockUp8xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 8, 92); return a; }
	Array* AManyShiftDown8xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 8, a, 0, 92); return a; }
	Array* AManyBlockDown8xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 8, a, 0, 92); return a; }
	Array* AManyShiftUp33xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 0, a, 33, 67); return a; }
	Array* AManyBlockUp33xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 33, 67); return a; }
	Array* AManyShiftDown33xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 33, a, 0, 67); return a; }
	Array* AManyBlockDown33xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 33, a, 0, 67); return a; }
	Array* AManyShiftUp64xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 0, a, 64, 36); return a; }
	Array* AManyBlockUp64xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 64, 36); return a; }
	Array* AManyShiftDown64xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Array::Copy(a, 64, a, 0, 36); return a; }
	Array* AManyBlockDown64xByte100(Byte c0, Byte c1) { Array* a = new Array(ByteType, 100); for (Int32 i = 0; i < 100; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(64) = c0; *(Byte*) a->Address(99) = c1; Buffer::BlockCopy(a, 64, a, 0, 36); return a; }
	Array* AManySameByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; return a; }
	Array* AManyCopyByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array* b = new Array(ByteType, 300); Array::Copy(a, b, 300); return b; }
	Array* AManyCopyPartByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array* b = new Array(ByteType, 300); Array::Copy(a, 149, b, 1, 150); return b; }
	Array* AManyConstrainedByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array* b = new Array(ByteType, 300); Array::ConstrainedCopy(a, 149, b, 1, 150); return b; }
	Array* AManyCopyToByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array* b = new Array(ByteType, 304); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array::Copy(a, 0, a, 1, 299); return a; }
	Array* AManyShiftDownByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array::Copy(a, 1, a, 0, 299); return a; }
	Array* AManyClearByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array::Clear(a, 2, 296); return a; }
	Array* AManyBlockByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Array* b = new Array(ByteType, 300); Buffer::BlockCopy(a, 149, b, 1, 150); return b; }
	Array* AManyBlockUpByte300(Byte c0, Byte c1) { Array* a = new Array(ByteType, 300); for (Int32 i = 0; i < 300; ++i) *(Byte*) a->Address(i) = (Byte)(i % 100); *(Byte*) a->Address(150) = c0; *(Byte*) a->Address(299) = c1; Buffer::BlockCopy(a, 0, a, 1, 299); return a; }
	Array* AManySameInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; return a; }
	Array* AManyCopyInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array* b = new Array(Int16Type, 40); Array::Copy(a, b, 40); return b; }
	Array* AManyCopyPartInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array* b = new Array(Int16Type, 40); Array::Copy(a, 16, b, 1, 23); return b; }
	Array* AManyConstrainedInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array* b = new Array(Int16Type, 40); Array::ConstrainedCopy(a, 16, b, 1, 23); return b; }
	Array* AManyCopyToInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array* b = new Array(Int16Type, 44); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 1, 39); return a; }
	Array* AManyShiftDownInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 1, a, 0, 39); return a; }
	Array* AManyClearInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Clear(a, 2, 36); return a; }
	Array* AManyBlockInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array* b = new Array(Int16Type, 40); Buffer::BlockCopy(a, 32, b, 2, 46); return b; }
	Array* AManyBlockUpInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 2, 78); return a; }
	Array* AManyShiftUp2xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 2, 38); return a; }
	Array* AManyBlockUp2xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 4, 76); return a; }
	Array* AManyShiftDown2xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 2, a, 0, 38); return a; }
	Array* AManyBlockDown2xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 4, a, 0, 76); return a; }
	Array* AManyShiftUp3xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 3, 37); return a; }
	Array* AManyBlockUp3xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 6, 74); return a; }
	Array* AManyShiftDown3xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 3, a, 0, 37); return a; }
	Array* AManyBlockDown3xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 6, a, 0, 74); return a; }
	Array* AManyShiftUp7xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 7, 33); return a; }
	Array* AManyBlockUp7xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 14, 66); return a; }
	Array* AManyShiftDown7xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 7, a, 0, 33); return a; }
	Array* AManyBlockDown7xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 14, a, 0, 66); return a; }
	Array* AManyShiftUp8xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 8, 32); return a; }
	Array* AManyBlockUp8xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 16, 64); return a; }
	Array* AManyShiftDown8xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 8, a, 0, 32); return a; }
	Array* AManyBlockDown8xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 16, a, 0, 64); return a; }
	Array* AManyShiftUp16xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 16, 24); return a; }
	Array* AManyBlockUp16xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 32, 48); return a; }
	Array* AManyShiftDown16xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 16, a, 0, 24); return a; }
	Array* AManyBlockDown16xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 32, a, 0, 48); return a; }
	Array* AManyShiftUp20xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 0, a, 20, 20); return a; }
	Array* AManyBlockUp20xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 40, 40); return a; }
	Array* AManyShiftDown20xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Array::Copy(a, 20, a, 0, 20); return a; }
	Array* AManyBlockDown20xInt1640(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(17) = c0; *(Int16*) a->Address(39) = c1; Buffer::BlockCopy(a, 40, a, 0, 40); return a; }
	Array* AManySameInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; return a; }
	Array* AManyCopyInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array* b = new Array(Int16Type, 100); Array::Copy(a, b, 100); return b; }
	Array* AManyCopyPartInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array* b = new Array(Int16Type, 100); Array::Copy(a, 63, b, 1, 36); return b; }
	Array* AManyConstrainedInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array* b = new Array(Int16Type, 100); Array::ConstrainedCopy(a, 63, b, 1, 36); return b; }
	Array* AManyCopyToInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array* b = new Array(Int16Type, 104); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 0, a, 1, 99); return a; }
	Array* AManyShiftDownInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 1, a, 0, 99); return a; }
	Array* AManyClearInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Clear(a, 2, 96); return a; }
	Array* AManyBlockInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array* b = new Array(Int16Type, 100); Buffer::BlockCopy(a, 126, b, 2, 72); return b; }
	Array* AManyBlockUpInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 2, 198); return a; }
	Array* AManyShiftUp8xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 0, a, 8, 92); return a; }
	Array* AManyBlockUp8xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 16, 184); return a; }
	Array* AManyShiftDown8xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 8, a, 0, 92); return a; }
	Array* AManyBlockDown8xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 16, a, 0, 184); return a; }
	Array* AManyShiftUp33xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 0, a, 33, 67); return a; }
	Array* AManyBlockUp33xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 66, 134); return a; }
	Array* AManyShiftDown33xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 33, a, 0, 67); return a; }
	Array* AManyBlockDown33xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 66, a, 0, 134); return a; }
	Array* AManyShiftUp64xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 0, a, 64, 36); return a; }
	Array* AManyBlockUp64xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 128, 72); return a; }
	Array* AManyShiftDown64xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Array::Copy(a, 64, a, 0, 36); return a; }
	Array* AManyBlockDown64xInt16100(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(64) = c0; *(Int16*) a->Address(99) = c1; Buffer::BlockCopy(a, 128, a, 0, 72); return a; }
	Array* AManySameInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; return a; }
	Array* AManyCopyInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array* b = new Array(Int16Type, 300); Array::Copy(a, b, 300); return b; }
	Array* AManyCopyPartInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array* b = new Array(Int16Type, 300); Array::Copy(a, 149, b, 1, 150); return b; }
	Array* AManyConstrainedInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array* b = new Array(Int16Type, 300); Array::ConstrainedCopy(a, 149, b, 1, 150); return b; }
	Array* AManyCopyToInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array* b = new Array(Int16Type, 304); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array::Copy(a, 0, a, 1, 299); return a; }
	Array* AManyShiftDownInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array::Copy(a, 1, a, 0, 299); return a; }
	Array* AManyClearInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array::Clear(a, 2, 296); return a; }
	Array* AManyBlockInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Array* b = new Array(Int16Type, 300); Buffer::BlockCopy(a, 298, b, 2, 300); return b; }
	Array* AManyBlockUpInt16300(Int16 c0, Int16 c1) { Array* a = new Array(Int16Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int16*) a->Address(i) = (Int16)(i % 100); *(Int16*) a->Address(150) = c0; *(Int16*) a->Address(299) = c1; Buffer::BlockCopy(a, 0, a, 2, 598); return a; }
	Array* AManySameInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; return a; }
	Array* AManyCopyInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array* b = new Array(Int32Type, 40); Array::Copy(a, b, 40); return b; }
	Array* AManyCopyPartInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array* b = new Array(Int32Type, 40); Array::Copy(a, 16, b, 1, 23); return b; }
	Array* AManyConstrainedInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array* b = new Array(Int32Type, 40); Array::ConstrainedCopy(a, 16, b, 1, 23); return b; }
	Array* AManyCopyToInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array* b = new Array(Int32Type, 44); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 1, 39); return a; }
	Array* AManyShiftDownInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 1, a, 0, 39); return a; }
	Array* AManyClearInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Clear(a, 2, 36); return a; }
	Array* AManyBlockInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array* b = new Array(Int32Type, 40); Buffer::BlockCopy(a, 64, b, 4, 92); return b; }
	Array* AManyBlockUpInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 4, 156); return a; }
	Array* AManyShiftUp2xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 2, 38); return a; }
	Array* AManyBlockUp2xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 8, 152); return a; }
	Array* AManyShiftDown2xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 2, a, 0, 38); return a; }
	Array* AManyBlockDown2xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 8, a, 0, 152); return a; }
	Array* AManyShiftUp3xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 3, 37); return a; }
	Array* AManyBlockUp3xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 12, 148); return a; }
	Array* AManyShiftDown3xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 3, a, 0, 37); return a; }
	Array* AManyBlockDown3xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 12, a, 0, 148); return a; }
	Array* AManyShiftUp7xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 7, 33); return a; }
	Array* AManyBlockUp7xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 28, 132); return a; }
	Array* AManyShiftDown7xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 7, a, 0, 33); return a; }
	Array* AManyBlockDown7xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 28, a, 0, 132); return a; }
	Array* AManyShiftUp8xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 8, 32); return a; }
	Array* AManyBlockUp8xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 32, 128); return a; }
	Array* AManyShiftDown8xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 8, a, 0, 32); return a; }
	Array* AManyBlockDown8xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 32, a, 0, 128); return a; }
	Array* AManyShiftUp16xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 16, 24); return a; }
	Array* AManyBlockUp16xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 64, 96); return a; }
	Array* AManyShiftDown16xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 16, a, 0, 24); return a; }
	Array* AManyBlockDown16xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 64, a, 0, 96); return a; }
	Array* AManyShiftUp20xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 0, a, 20, 20); return a; }
	Array* AManyBlockUp20xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 80, 80); return a; }
	Array* AManyShiftDown20xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Array::Copy(a, 20, a, 0, 20); return a; }
	Array* AManyBlockDown20xInt3240(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(17) = c0; *(Int32*) a->Address(39) = c1; Buffer::BlockCopy(a, 80, a, 0, 80); return a; }
	Array* AManySameInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; return a; }
	Array* AManyCopyInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array* b = new Array(Int32Type, 100); Array::Copy(a, b, 100); return b; }
	Array* AManyCopyPartInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array* b = new Array(Int32Type, 100); Array::Copy(a, 63, b, 1, 36); return b; }
	Array* AManyConstrainedInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array* b = new Array(Int32Type, 100); Array::ConstrainedCopy(a, 63, b, 1, 36); return b; }
	Array* AManyCopyToInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array* b = new Array(Int32Type, 104); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 0, a, 1, 99); return a; }
	Array* AManyShiftDownInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 1, a, 0, 99); return a; }
	Array* AManyClearInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Clear(a, 2, 96); return a; }
	Array* AManyBlockInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array* b = new Array(Int32Type, 100); Buffer::BlockCopy(a, 252, b, 4, 144); return b; }
	Array* AManyBlockUpInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 4, 396); return a; }
	Array* AManyShiftUp8xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 0, a, 8, 92); return a; }
	Array* AManyBlockUp8xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 32, 368); return a; }
	Array* AManyShiftDown8xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 8, a, 0, 92); return a; }
	Array* AManyBlockDown8xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 32, a, 0, 368); return a; }
	Array* AManyShiftUp33xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 0, a, 33, 67); return a; }
	Array* AManyBlockUp33xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 132, 268); return a; }
	Array* AManyShiftDown33xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 33, a, 0, 67); return a; }
	Array* AManyBlockDown33xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 132, a, 0, 268); return a; }
	Array* AManyShiftUp64xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 0, a, 64, 36); return a; }
	Array* AManyBlockUp64xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 256, 144); return a; }
	Array* AManyShiftDown64xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Array::Copy(a, 64, a, 0, 36); return a; }
	Array* AManyBlockDown64xInt32100(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(64) = c0; *(Int32*) a->Address(99) = c1; Buffer::BlockCopy(a, 256, a, 0, 144); return a; }
	Array* AManySameInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; return a; }
	Array* AManyCopyInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array* b = new Array(Int32Type, 300); Array::Copy(a, b, 300); return b; }
	Array* AManyCopyPartInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array* b = new Array(Int32Type, 300); Array::Copy(a, 149, b, 1, 150); return b; }
	Array* AManyConstrainedInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array* b = new Array(Int32Type, 300); Array::ConstrainedCopy(a, 149, b, 1, 150); return b; }
	Array* AManyCopyToInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array* b = new Array(Int32Type, 304); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array::Copy(a, 0, a, 1, 299); return a; }
	Array* AManyShiftDownInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array::Copy(a, 1, a, 0, 299); return a; }
	Array* AManyClearInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array::Clear(a, 2, 296); return a; }
	Array* AManyBlockInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Array* b = new Array(Int32Type, 300); Buffer::BlockCopy(a, 596, b, 4, 600); return b; }
	Array* AManyBlockUpInt32300(Int32 c0, Int32 c1) { Array* a = new Array(Int32Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int32*) a->Address(i) = (Int32)(i % 100); *(Int32*) a->Address(150) = c0; *(Int32*) a->Address(299) = c1; Buffer::BlockCopy(a, 0, a, 4, 1196); return a; }
	Array* AManySameInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; return a; }
	Array* AManyCopyInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array* b = new Array(Int64Type, 40); Array::Copy(a, b, 40); return b; }
	Array* AManyCopyPartInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array* b = new Array(Int64Type, 40); Array::Copy(a, 16, b, 1, 23); return b; }
	Array* AManyConstrainedInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array* b = new Array(Int64Type, 40); Array::ConstrainedCopy(a, 16, b, 1, 23); return b; }
	Array* AManyCopyToInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array* b = new Array(Int64Type, 44); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 1, 39); return a; }
	Array* AManyShiftDownInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 1, a, 0, 39); return a; }
	Array* AManyClearInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Clear(a, 2, 36); return a; }
	Array* AManyBlockInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array* b = new Array(Int64Type, 40); Buffer::BlockCopy(a, 128, b, 8, 184); return b; }
	Array* AManyBlockUpInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 8, 312); return a; }
	Array* AManyShiftUp2xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 2, 38); return a; }
	Array* AManyBlockUp2xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 16, 304); return a; }
	Array* AManyShiftDown2xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 2, a, 0, 38); return a; }
	Array* AManyBlockDown2xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 16, a, 0, 304); return a; }
	Array* AManyShiftUp3xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 3, 37); return a; }
	Array* AManyBlockUp3xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 24, 296); return a; }
	Array* AManyShiftDown3xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 3, a, 0, 37); return a; }
	Array* AManyBlockDown3xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 24, a, 0, 296); return a; }
	Array* AManyShiftUp7xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 7, 33); return a; }
	Array* AManyBlockUp7xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 56, 264); return a; }
	Array* AManyShiftDown7xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 7, a, 0, 33); return a; }
	Array* AManyBlockDown7xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 56, a, 0, 264); return a; }
	Array* AManyShiftUp8xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 8, 32); return a; }
	Array* AManyBlockUp8xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 64, 256); return a; }
	Array* AManyShiftDown8xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 8, a, 0, 32); return a; }
	Array* AManyBlockDown8xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 64, a, 0, 256); return a; }
	Array* AManyShiftUp16xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 16, 24); return a; }
	Array* AManyBlockUp16xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 128, 192); return a; }
	Array* AManyShiftDown16xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 16, a, 0, 24); return a; }
	Array* AManyBlockDown16xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 128, a, 0, 192); return a; }
	Array* AManyShiftUp20xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 0, a, 20, 20); return a; }
	Array* AManyBlockUp20xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 0, a, 160, 160); return a; }
	Array* AManyShiftDown20xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Array::Copy(a, 20, a, 0, 20); return a; }
	Array* AManyBlockDown20xInt6440(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 40); for (Int32 i = 0; i < 40; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(17) = c0; *(Int64*) a->Address(39) = c1; Buffer::BlockCopy(a, 160, a, 0, 160); return a; }
	Array* AManySameInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; return a; }
	Array* AManyCopyInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array* b = new Array(Int64Type, 100); Array::Copy(a, b, 100); return b; }
	Array* AManyCopyPartInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array* b = new Array(Int64Type, 100); Array::Copy(a, 63, b, 1, 36); return b; }
	Array* AManyConstrainedInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array* b = new Array(Int64Type, 100); Array::ConstrainedCopy(a, 63, b, 1, 36); return b; }
	Array* AManyCopyToInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array* b = new Array(Int64Type, 104); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 0, a, 1, 99); return a; }
	Array* AManyShiftDownInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 1, a, 0, 99); return a; }
	Array* AManyClearInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Clear(a, 2, 96); return a; }
	Array* AManyBlockInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array* b = new Array(Int64Type, 100); Buffer::BlockCopy(a, 504, b, 8, 288); return b; }
	Array* AManyBlockUpInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 8, 792); return a; }
	Array* AManyShiftUp8xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 0, a, 8, 92); return a; }
	Array* AManyBlockUp8xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 64, 736); return a; }
	Array* AManyShiftDown8xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 8, a, 0, 92); return a; }
	Array* AManyBlockDown8xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 64, a, 0, 736); return a; }
	Array* AManyShiftUp33xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 0, a, 33, 67); return a; }
	Array* AManyBlockUp33xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 264, 536); return a; }
	Array* AManyShiftDown33xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 33, a, 0, 67); return a; }
	Array* AManyBlockDown33xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 264, a, 0, 536); return a; }
	Array* AManyShiftUp64xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 0, a, 64, 36); return a; }
	Array* AManyBlockUp64xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 0, a, 512, 288); return a; }
	Array* AManyShiftDown64xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Array::Copy(a, 64, a, 0, 36); return a; }
	Array* AManyBlockDown64xInt64100(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 100); for (Int32 i = 0; i < 100; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(64) = c0; *(Int64*) a->Address(99) = c1; Buffer::BlockCopy(a, 512, a, 0, 288); return a; }
	Array* AManySameInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; return a; }
	Array* AManyCopyInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array* b = new Array(Int64Type, 300); Array::Copy(a, b, 300); return b; }
	Array* AManyCopyPartInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array* b = new Array(Int64Type, 300); Array::Copy(a, 149, b, 1, 150); return b; }
	Array* AManyConstrainedInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array* b = new Array(Int64Type, 300); Array::ConstrainedCopy(a, 149, b, 1, 150); return b; }
	Array* AManyCopyToInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array* b = new Array(Int64Type, 304); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array::Copy(a, 0, a, 1, 299); return a; }
	Array* AManyShiftDownInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array::Copy(a, 1, a, 0, 299); return a; }
	Array* AManyClearInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array::Clear(a, 2, 296); return a; }
	Array* AManyBlockInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Array* b = new Array(Int64Type, 300); Buffer::BlockCopy(a, 1192, b, 8, 1200); return b; }
	Array* AManyBlockUpInt64300(Int64 c0, Int64 c1) { Array* a = new Array(Int64Type, 300); for (Int32 i = 0; i < 300; ++i) *(Int64*) a->Address(i) = (Int64)(i % 100); *(Int64*) a->Address(150) = c0; *(Int64*) a->Address(299) = c1; Buffer::BlockCopy(a, 0, a, 8, 2392); return a; }
	Array* AManySameDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; return a; }
	Array* AManyCopyDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array* b = new Array(DoubleType, 40); Array::Copy(a, b, 40); return b; }
	Array* AManyCopyPartDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array* b = new Array(DoubleType, 40); Array::Copy(a, 16, b, 1, 23); return b; }
	Array* AManyConstrainedDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array* b = new Array(DoubleType, 40); Array::ConstrainedCopy(a, 16, b, 1, 23); return b; }
	Array* AManyCopyToDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array* b = new Array(DoubleType, 44); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 1, 39); return a; }
	Array* AManyShiftDownDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 1, a, 0, 39); return a; }
	Array* AManyClearDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Clear(a, 2, 36); return a; }
	Array* AManyShiftUp2xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 2, 38); return a; }
	Array* AManyShiftDown2xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 2, a, 0, 38); return a; }
	Array* AManyShiftUp3xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 3, 37); return a; }
	Array* AManyShiftDown3xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 3, a, 0, 37); return a; }
	Array* AManyShiftUp7xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 7, 33); return a; }
	Array* AManyShiftDown7xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 7, a, 0, 33); return a; }
	Array* AManyShiftUp8xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 8, 32); return a; }
	Array* AManyShiftDown8xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 8, a, 0, 32); return a; }
	Array* AManyShiftUp16xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 16, 24); return a; }
	Array* AManyShiftDown16xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 16, a, 0, 24); return a; }
	Array* AManyShiftUp20xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 0, a, 20, 20); return a; }
	Array* AManyShiftDown20xDouble40(Double c0, Double c1) { Array* a = new Array(DoubleType, 40); for (Int32 i = 0; i < 40; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(17) = c0; *(Double*) a->Address(39) = c1; Array::Copy(a, 20, a, 0, 20); return a; }
	Array* AManySameDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; return a; }
	Array* AManyCopyDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array* b = new Array(DoubleType, 100); Array::Copy(a, b, 100); return b; }
	Array* AManyCopyPartDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array* b = new Array(DoubleType, 100); Array::Copy(a, 63, b, 1, 36); return b; }
	Array* AManyConstrainedDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array* b = new Array(DoubleType, 100); Array::ConstrainedCopy(a, 63, b, 1, 36); return b; }
	Array* AManyCopyToDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array* b = new Array(DoubleType, 104); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 0, a, 1, 99); return a; }
	Array* AManyShiftDownDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 1, a, 0, 99); return a; }
	Array* AManyClearDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Clear(a, 2, 96); return a; }
	Array* AManyShiftUp8xDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 0, a, 8, 92); return a; }
	Array* AManyShiftDown8xDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 8, a, 0, 92); return a; }
	Array* AManyShiftUp33xDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 0, a, 33, 67); return a; }
	Array* AManyShiftDown33xDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 33, a, 0, 67); return a; }
	Array* AManyShiftUp64xDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 0, a, 64, 36); return a; }
	Array* AManyShiftDown64xDouble100(Double c0, Double c1) { Array* a = new Array(DoubleType, 100); for (Int32 i = 0; i < 100; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(64) = c0; *(Double*) a->Address(99) = c1; Array::Copy(a, 64, a, 0, 36); return a; }
	Array* AManySameDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; return a; }
	Array* AManyCopyDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array* b = new Array(DoubleType, 300); Array::Copy(a, b, 300); return b; }
	Array* AManyCopyPartDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array* b = new Array(DoubleType, 300); Array::Copy(a, 149, b, 1, 150); return b; }
	Array* AManyConstrainedDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array* b = new Array(DoubleType, 300); Array::ConstrainedCopy(a, 149, b, 1, 150); return b; }
	Array* AManyCopyToDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array* b = new Array(DoubleType, 304); a->CopyTo(b, 3); return b; }
	Array* AManyShiftUpDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array::Copy(a, 0, a, 1, 299); return a; }
	Array* AManyShiftDownDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array::Copy(a, 1, a, 0, 299); return a; }
	Array* AManyClearDouble300(Double c0, Double c1) { Array* a = new Array(DoubleType, 300); for (Int32 i = 0; i < 300; ++i) *(Double*) a->Address(i) = (Double)(i % 100); *(Double*) a->Address(150) = c0; *(Double*) a->Address(299) = c1; Array::Clear(a, 2, 296); return a; }
}
