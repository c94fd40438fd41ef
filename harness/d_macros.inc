/* the macros of common_macro.h as a program meets them; compiled for a debug and for a release build */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#define __assert_fail mac_assert_fail
#include <assert.h>
#include "d_macros.h"
#undef abort
#define abort()    mac_abort()
#define printf     mac_printf
#define free(p)    mac_free(p)
#define rand()     mac_rand()
#include "common_macro.h"

/* what an expression looks like to a macro: one with operators of low precedence in it */
int FN(assert_line);
void FN(assert_it)(int how, int v, int* seen)
{
	switch (how)
	{
	case 0: FN(assert_line) = __LINE__; ASSERT(((*seen)++, v)); break;
	case 1: FN(assert_line) = __LINE__; ASSERT_ABORT(((*seen)++, v)); break;
	case 2: FN(assert_line) = __LINE__; if (v) ASSERT_ABORT(((*seen)++, v)); else ASSERT_ABORT(((*seen)--, v)); break;
	case 3: FN(assert_line) = __LINE__; ASSERT_ABORT((*seen)++ || v ? v : 0); break;
	case 4: FN(assert_line) = __LINE__; for (int i = 0; i < 2; i++) ASSERT_ABORT(((*seen)++, i == 0 || v)); break;
	default: FN(assert_line) = __LINE__; EMERGENCY_LOG("value %d of %s", v, "how"); if (v) EMERGENCY_LOG("bare"); else (*seen)++; break;
	}
}
const char* FN(assert_file)(void) { return __FILE__; }

/* integers in pointers, with arguments that are expressions and in expressions around them */
bool FN(ptr_uint)(uintptr_t a, uintptr_t b, int c)
{
	void* p = UINT_TO_PTR(c ? a : b);
	void* q = UINT_TO_PTR(a + b);
	return PTR_TO_UINT(p) == (c ? a : b) && PTR_TO_UINT(q) - b == a && PTR_TO_UINT(c ? p : q) == (c ? a : a + b);
}
bool FN(ptr_int)(int a, int b, int c)
{
	void* p = INT_TO_PTR(c ? a : b);
	void* q = INT_TO_PTR(a ^ b);
	return (int)PTR_TO_INT(p) == (c ? a : b) && PTR_TO_INT(p) == (c ? a : b) && (int)(PTR_TO_INT(q) ^ b) == a
		&& PTR_TO_INT(c ? p : q) == (c ? a : a ^ b) && (PTR_TO_INT(p) < 0) == ((c ? a : b) < 0);
}
bool FN(ptr_long)(long long a, long long b, int c)
{
	void* p = LONG64_TO_PTR(c ? a : b);
	void* q = LONG64_TO_PTR(a ^ b);
	return PTR_TO_LONG64(p) == (c ? a : b) && (PTR_TO_LONG64(q) ^ b) == a && PTR_TO_LONG64(c ? p : q) == (c ? a : a ^ b);
}
#define CMP(T, N) \
bool FN(cmp_##N)(T a, T b) \
{ \
	T mx = a > b ? a : b, mn = a < b ? a : b, r1 = __max(a, b), r2 = __min(a, b); \
	return r1 == mx && r2 == mn && __max(a & b, a | b) == ((a & b) > (a | b) ? (a & b) : (a | b)) \
		&& __min(a & b, a | b) == ((a & b) < (a | b) ? (a & b) : (a | b)) && __max(b, a) - __min(a, b) == (T)(mx - mn); \
}
CMP(signed char, i8)
CMP(long long, i64)
CMP(unsigned long long, u64)
bool FN(abs_)(long long a, long long b) { return __abs(a | b) == ((a | b) < 0 ? -(a | b) : (a | b)) && __abs(a) == (a < 0 ? -a : a) && __abs(a - b) == (a < b ? b - a : a - b) && 2 * __abs(a) == (a < 0 ? -2 * a : 2 * a); }
bool FN(cmp_f)(double a, double b)
{
	return __max(a, b) == (a > b ? a : b) && __min(a, b) == (a < b ? a : b) && __abs(a - b) == (a < b ? b - a : a - b);
}

#define WEEK_ITEMS(G) G(FN(MON)) G(FN(TUE)) G(FN(WED)) G(FN(THU))
#define ONE_ITEM(G) G(FN(ONLY))
#define WEEK FN(WEEK_T)
#define PLAIN_ITEMS(G) G(RED) G(GREEN) G(BLUE) G(BLACK) G(WHITE)
#ifdef MAC_ENUM
DEF_ENUM(COLOURS, PLAIN_ITEMS);
DECLARE_ENUM_STRS(COLOURS);
DEF_ENUM_STRS(COLOURS, PLAIN_ITEMS);
bool enum_check(void)
{
	static const char* const want[] = { "RED", "GREEN", "BLUE", "BLACK", "WHITE" };
	bool ok = RED == 0 && GREEN == 1 && BLUE == 2 && BLACK == 3 && WHITE == 4 && ARRAY_LEN(COLOURS_STRS) == 5;
	for (COLOURS c = RED; ok && c <= WHITE; c++) ok = !strcmp(COLOURS_STRS[c], want[c]);
	return ok;
}
#endif
bool FN(misc)(void)
{
	char a[7]; int b[3][5]; const char* n = NULL; const char* s = "x";
	STATIC_ASSERT(sizeof(a) == 7); STATIC_ASSERT(ARRAY_LEN(a) == 7);
	int CONCAT(ab, cd) = 3;
	return ARRAY_LEN(a) == 7 && ARRAY_LEN(b) == 3 && ARRAY_LEN(b[0]) == 5 && ARRAY_LEN(*(b + 1)) == 5 && abcd == 3
		&& !strcmp(STRINGIFY(a + b), "a + b") && !strcmp(NULLABLE_STRING(n), "(null)") && NULLABLE_STRING(s) == s
		&& NULLABLE_STRING(n ? n : s) == s && INVALID_FD + 1 == 0;
}
void FN(free_it)(char** p, int how)
{
	if (how == 0) FREE(*p);
	else if (how == 1) { FREE(*p); FREE(*p); }
	else { char** q = p; FREE(*q); }
}
int FN(random_)(int a, int b, int c) { return c ? RANDOM(a, b) : RANDOM(a - 1 + 1, b | 0); }
/* on an if without braces fclose() would end it: it stands alone, as in the library */
FILE* FN(close_it)(FILE* f, int how)
{
	fclose(f);
	if (how) { fclose(f); }
	return f;
}
