// Histories of the platform memory. Never executed: analysed together with the library by absint against spec/platform.spec.
// One allocation of arbitrary size brings the pool into every state it can reach, so two allocations cover every history.
#include "DotnetTypes.h"
#include <string.h>
typedef uint64_t U;
typedef int64_t I;
static char* take(U n) { return (char*) my_operator_new_replacement(n); }
namespace Pool
{
	// distance of the second block from the first, 0 when one was refused
	I Apart(U a, U b) { PlatformSetup(); char* p = take(a); char* q = take(b); return p && q ? q - p : 0; }
	I ApartAfterDelete(U a, U b) { PlatformSetup(); char* p = take(a); my_operator_delete_replacement(p); char* q = take(b); return p && q ? q - p : 0; }
	bool Aligned(U a, U b) { PlatformSetup(); char* p = take(a); char* q = take(b); return p && q ? ((q - p) & 7) == 0 : true; }
	bool First(U a) { PlatformSetup(); return take(a) != nullptr; }
	bool Second(U a, U b) { PlatformSetup(); char* p = take(a); char* q = take(b); return p != nullptr && q != nullptr; }
	bool AfterRefusal(U a, U b) { PlatformSetup(); char* p = take(a); char* q = take(b); return p == nullptr && q != nullptr; }
	int Zeroed(U a, U b, U i) { PlatformSetup(); char* p = take(a); memset(p, 0xFF, a); PlatformSetup(); char* q = take(b); return q[i]; }
	int SecondZeroed(U a, U b, U c, U i) { PlatformSetup(); char* p = take(a); memset(p, 0xFF, a); PlatformSetup(); p = take(b); char* q = take(c); return q[i]; }
	I Recycled(U a, U b) { PlatformSetup(); char* p = take(a); PlatformSetup(); char* q = take(b); return p && q ? q - p : -1; }
	bool RecycledFull(U a, U b) { PlatformSetup(); take(a); PlatformSetup(); return take(b) != nullptr; }
	int Plain(U a, U i) { char* p = take(a); return p ? p[i] : 0; }
	// every byte of every block granted may be written
	void Write(U a, U b) {
		PlatformSetup();
		char* p = take(a); if (p) memset(p, 1, a);
		char* q = take(b); if (q) memset(q, 2, b);
		PlatformSetup();
		p = take(b); if (p) memset(p, 3, b);
		my_operator_delete_replacement(p); my_operator_delete_replacement(q);
	}
	void WritePlain(U a, U b) {
		char* p = take(a); if (p) memset(p, 1, a);
		char* q = take(b); if (q) memset(q, 2, b);
		my_operator_delete_replacement(p); my_operator_delete_replacement(q); my_operator_delete_replacement(nullptr);
		PlatformSetup();
		q = take(b); if (q) memset(q, 2, b);
		my_operator_delete_replacement(q);
	}
	void Across(U a) { char* p = take(a); PlatformSetup(); if (p) memset(p, 1, a); my_operator_delete_replacement(p); char* q = take(a); if (q) memset(q, 1, a); }
	// blocks that were never written are read
	int ReadFirst(U a, U i) { PlatformSetup(); char* p = take(a); return p != nullptr && i < a && p[i] != 0; }
	int ReadSecond(U a, U b, U i) { PlatformSetup(); take(a); char* p = take(b); return p != nullptr && i < b && p[i] != 0; }
	int ReadPlain(U a, U i) { char* p = take(a); return p != nullptr && i < a && p[i] != 0; }
	int ReadPlain13() { char* p = take(13); return p != nullptr && p[12] != 0; }
	int ReadPlain7() { char* p = take(7); return p != nullptr && p[6] != 0; }
	int Read13(U a) { PlatformSetup(); take(a); char* p = take(13); return p != nullptr && p[12] != 0; }
	int Read7(U a) { PlatformSetup(); take(a); char* p = take(7); return p != nullptr && p[6] != 0; }
}
