#define _GNU_SOURCE
/* D08: the macros every part of the library is written with (common_macro.h), in a debug and in a release build */
#include "seq.h"
#include <setjmp.h>
#include <stdarg.h>
#include <limits.h>
#include "d_macros.h"
#define SIDE(P) \
	extern int P##assert_line; void P##assert_it(int how, int v, int* seen); const char* P##assert_file(void); \
	bool P##ptr_uint(uintptr_t a, uintptr_t b, int c); bool P##ptr_int(int a, int b, int c); bool P##ptr_long(long long a, long long b, int c); \
	bool P##cmp_i8(signed char a, signed char b); bool P##cmp_i64(long long a, long long b); bool P##cmp_u64(unsigned long long a, unsigned long long b); \
	bool P##abs_(long long a, long long b); bool P##cmp_f(double a, double b); bool P##misc(void); \
	void P##free_it(char** p, int how); int P##random_(int a, int b, int c); FILE* P##close_it(FILE* f, int how);
SIDE(dbg_)
SIDE(rel_)
bool enum_check(void);

static char out[4096];
static size_t out_n;
static jmp_buf jb;
static int stopped, failed_line, frees;   /* stopped: 1 assertion, 2 abort */
static char failed_expr[256], failed_file[512];
static void* freed;
static int rand_v;

void mac_assert_fail(const char* expr, const char* file, unsigned line, const char* fn)
{
	(void)fn;
	stopped = 1;
	failed_line = (int)line;
	snprintf(failed_expr, sizeof failed_expr, "%s", expr);
	snprintf(failed_file, sizeof failed_file, "%s", file);
	longjmp(jb, 1);
}
void mac_abort(void) { stopped = 2; longjmp(jb, 1); }
int mac_printf(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(out + out_n, sizeof out - out_n, fmt, ap);
	va_end(ap);
	if (n > 0) out_n += (size_t)n;
	return n;
}
void mac_free(void* p) { frees++; freed = p; }
int mac_rand(void) { return rand_v; }

static void assertions(void)
{
	bool rel = hx_choose(2, "release build");
	int how = hx_choose(6, "macro and where it stands"), v = hx_choose(3, "value") - 1;
	int seen = 0;
	out_n = 0;
	out[0] = 0;
	stopped = failed_line = 0;
	failed_expr[0] = failed_file[0] = 0;
	if (!setjmp(jb)) (rel ? rel_assert_it : dbg_assert_it)(how, v, &seen);
	int line = rel ? rel_assert_line : dbg_assert_line;
	hx_log("%s build, case %d, value %d: stopped %d, evaluated %d time(s), output \"%s\"", rel ? "release" : "debug", how, v, stopped, seen, out);
	if (how == 5)
	{
		HX_CHECK(!stopped, "log-stops", "EMERGENCY_LOG stops the program");
		char want[128];
		snprintf(want, sizeof want, "value %d of how", v);
		HX_CHECK(strstr(out, want), "log-text", "EMERGENCY_LOG of \"%s\" prints \"%s\"", want, out);
		HX_CHECK(!strstr(out, "bare") == !v && seen == !v, "log-branch", "EMERGENCY_LOG in an if without braces: output \"%s\", other branch taken %d time(s)", out, seen);
		HX_CHECK(out[out_n - 1] == '\n', "log-line", "EMERGENCY_LOG does not end its line: \"%s\"", out);
		return;
	}
	/* a failing check stops the program, except that the release build has no ASSERT */
	bool stop = !v && !(rel && how == 0);
	HX_CHECK(!stopped == !stop, "assert-stop", "%s in a %s build with %s condition %s the program", how ? "ASSERT_ABORT" : "ASSERT", rel ? "release" : "debug", v ? "a true" : "a false",
		stopped ? "stops" : "does not stop");
	int want = how == 4 ? 2 : how == 2 && !v ? -1 : 1;
	HX_CHECK(seen == want, "assert-evaluated", "the condition of %s in a %s build is evaluated %d time(s) instead of %d (case %d)", how ? "ASSERT_ABORT" : "ASSERT",
		rel ? "release" : "debug", seen, want, how);
	if (stopped)
	{
		if (rel)
		{
			char l[16];
			snprintf(l, sizeof l, ":%d", line);
			HX_CHECK(stopped == 2 && strstr(out, "seen") && strstr(out, rel_assert_file()) && strstr(out, l) && strstr(out, "assert_it"), "assert-report",
				"a failed ASSERT_ABORT in %s line %d of a release build reports \"%s\"", rel_assert_file(), line, out);
		}
		else
			HX_CHECK(failed_line == line && strstr(failed_expr, "seen") && !strcmp(failed_file, dbg_assert_file()), "assert-report",
				"a failed assertion in %s line %d reports \"%s\" at %s:%d", dbg_assert_file(), line, failed_expr, failed_file, failed_line);
	}
	else
		HX_CHECK(!out_n, "assert-noise", "a check that holds prints \"%s\"", out);
	hx_state(hx_mix((uint64_t)how, (uint64_t)(rel * 4 + v + 1)));
	hx_outcome(hx_mix((uint64_t)stopped, (uint64_t)seen));
}

/* every number whose distance from a power of two (either sign) is at most K, and every small one */
static long long vals[4096];
static int n_vals;
static void mk(int k)
{
	n_vals = 0;
	for (int e = 0; e < 64; e++)
		for (int d = -k; d <= k; d++)
			for (int s = 0; s < 2; s++)
			{
				unsigned long long x = (1ull << e) + (unsigned long long)(long long)d;
				if (s) x = -x;
				bool have = false;
				for (int i = 0; i < n_vals; i++) have |= vals[i] == (long long)x;
				if (!have) vals[n_vals++] = (long long)x;
			}
}
static void conversions(void)
{
	mk(HX_T(1, 4));
	int i = hx_choose(n_vals, "value");
	long long a = vals[i];
	uint64_t n = 0;
	for (int j = 0; j < n_vals; j++)
		for (int c = 0; c < 2; c++)
		{
			long long b = vals[j];
			n += 3;
			HX_CHECK(dbg_ptr_uint((uintptr_t)a, (uintptr_t)b, c) && rel_ptr_uint((uintptr_t)a, (uintptr_t)b, c), "uint-pointer", "UINT_TO_PTR/PTR_TO_UINT with %llu and %llu", (unsigned long long)a, (unsigned long long)b);
			HX_CHECK(dbg_ptr_int((int)a, (int)b, c) && rel_ptr_int((int)a, (int)b, c), "int-pointer", "INT_TO_PTR/PTR_TO_INT with %d and %d", (int)a, (int)b);
			HX_CHECK(dbg_ptr_long(a, b, c) && rel_ptr_long(a, b, c), "long-pointer", "LONG64_TO_PTR/PTR_TO_LONG64 with %lld and %lld", a, b);
		}
	hx_trans(n);
	hx_state(hx_mix(77, (uint64_t)a));
	hx_outcome((uint64_t)a);
}
static void comparisons(void)
{
	mk(HX_T(1, 4));
	int i = hx_choose(n_vals, "value");
	long long a = vals[i];
	for (int j = 0; j < n_vals; j++)
	{
		long long b = vals[j];
		/* differences of the signed ones must not overflow: half the range */
		long long x = a / 4, y = b / 4;
		HX_CHECK(dbg_cmp_i64(x, y) && rel_cmp_i64(x, y), "min-max", "__min/__max of %lld and %lld", x, y);
		HX_CHECK(dbg_cmp_u64((unsigned long long)a, (unsigned long long)b) && rel_cmp_u64((unsigned long long)a, (unsigned long long)b), "min-max-unsigned", "__min/__max of %llu and %llu", (unsigned long long)a, (unsigned long long)b);
		HX_CHECK(dbg_abs_(x, y) && rel_abs_(x, y), "abs", "__abs of %lld and of the difference to %lld", x, y);
		HX_CHECK(dbg_cmp_f((double)a / 3, (double)b / 7) && rel_cmp_f((double)a / 3, (double)b / 7), "min-max-double", "__min/__max/__abs of %g and %g", (double)a / 3, (double)b / 7);
	}
	hx_trans((uint64_t)n_vals * 4);
	hx_state(hx_mix(78, (uint64_t)a));
	hx_outcome((uint64_t)a);
}
static void bytes(void)
{
	int a = hx_choose(256, "value") - 128;
	for (int b = -128; b < 128; b++)
	{
		signed char mx = (signed char)(a > b ? a : b), mn = (signed char)(a < b ? a : b);
		if (mx - mn > 127) continue;         /* the harness' own expression leaves the type */
		HX_CHECK(dbg_cmp_i8((signed char)a, (signed char)b) && rel_cmp_i8((signed char)a, (signed char)b), "min-max", "__min/__max of %d and %d", a, b);
	}
	hx_trans(256);
	hx_state(hx_mix(79, (uint64_t)a));
	hx_outcome((uint64_t)a);
}
static void releasing(void)
{
	bool rel = hx_choose(2, "release build");
	int how = hx_choose(3, "use"), null = hx_choose(2, "null pointer");
	char c, *p = null ? NULL : &c;
	frees = 0;
	freed = NULL;
	(rel ? rel_free_it : dbg_free_it)(&p, how);
	HX_CHECK(p == NULL, "free-null", "FREE(p) leaves p at %p", (void*)p);
	HX_CHECK(frees == !null && (null || freed == &c), "free-once", "FREE of %s pointer calls free() %d time(s)", null ? "a null" : "a", frees);
	hx_state((uint64_t)(rel * 8 + how * 2 + null));
	hx_outcome((uint64_t)frees);
}
static int closes;
static int cookie_close(void* c) { (void)c; closes++; return 0; }
static void closing(void)
{
	bool rel = hx_choose(2, "release build");
	int how = hx_choose(2, "closed twice"), null = hx_choose(2, "null stream");
	closes = 0;
	FILE* f = null ? NULL : fopencookie(NULL, "w", (cookie_io_functions_t){ .close = cookie_close });
	f = (rel ? rel_close_it : dbg_close_it)(f, how);
	HX_CHECK(f == NULL, "fclose-null", "fclose(f) of the library's headers leaves f set");
	HX_CHECK(closes == !null, "fclose-once", "fclose of %s stream closes it %d time(s)", null ? "a null" : "an open", closes);
	hx_state((uint64_t)(rel * 8 + how * 2 + null));
	hx_outcome((uint64_t)closes);
}
static void numbers(void)
{
	static const int rv[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 99, 100, 101, 1000003, RAND_MAX - 2, RAND_MAX - 1, RAND_MAX };
	int a = hx_choose(41, "from") - 20, w = hx_choose(20, "how many") + 1, b = a + w;
	bool hit[32] = { 0 };
	for (size_t i = 0; i < sizeof rv / sizeof *rv; i++)
		for (int c = 0; c < 4; c++)
		{
			rand_v = rv[i];
			int r = (c & 2 ? rel_random_ : dbg_random_)(a, b, c & 1);
			HX_CHECK(r >= a && r < b, "random-range", "RANDOM(%d, %d) with rand() = %d is %d", a, b, rand_v, r);
			hit[r - a] = true;
		}
	for (int i = 0; i < (w < 18 ? w : 18); i++) HX_CHECK(hit[i], "random-all", "RANDOM(%d, %d) is never %d though rand() takes every value from 0 to 17", a, b, a + i);
	hx_trans(sizeof rv / sizeof *rv * 4);
	hx_state(hx_mix((uint64_t)a, (uint64_t)b));
	hx_outcome((uint64_t)w);
}
static void names(void)
{
	int k = hx_choose(3, "what");
	if (k == 0) HX_CHECK(enum_check(), "enum-names", "DEF_ENUM/DEF_ENUM_STRS: values and names differ");
	else HX_CHECK(k == 1 ? dbg_misc() : rel_misc(), "misc", "ARRAY_LEN, STRINGIFY, CONCAT, NULLABLE_STRING or INVALID_FD is not what its name says");
	hx_state((uint64_t)k);
	hx_outcome((uint64_t)k);
}
const hx_scn_t hx_scenarios[] = {
	{ "assertions", assertions, 0, 0, "ASSERT, ASSERT_ABORT and EMERGENCY_LOG with true and false conditions, alone and in branches and loops without braces, in a debug and in a release build" },
	{ "conversions", conversions, 0, 0, "every pair of numbers next to a power of two through the integer/pointer macros, as expressions" },
	{ "comparisons", comparisons, 0, 0, "every pair of numbers next to a power of two through __min, __max and __abs, in four types" },
	{ "bytes", bytes, 0, 0, "every pair of 8-bit numbers through __min and __max" },
	{ "releasing", releasing, 0, 0, "FREE of pointers and null pointers, once and twice" },
	{ "closing", closing, 0, 0, "fclose of open and null streams, once and twice" },
	{ "numbers", numbers, 0, 0, "RANDOM over every range of up to 20 numbers around zero, for 25 values of rand() including the extremes" },
	{ "names", names, 0, 0, "enumerations with names, and the small helpers" },
};
const int hx_n_scenarios = 8;
