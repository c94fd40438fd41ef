/* M02: the tracked allocator behaves like the C allocator and accounts for every block. */
#include "seq.h"
#include "scale.h"
#include <limits.h>
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#define MAXB 8
static struct { uint8_t* p; size_t n; uint8_t tag; int line; const char *file, *func; bool seen; } B[MAXB];
static int nb, line;
static bool on;
static uint64_t obs;
static uint8_t tagc;
static const char* FILES[] = { "dir/source.c", "a/very/long/path/to/a/source/file/that/does/not/fit/into/the/space/that/is/reserved/for/the/name/of/the/file/in/the/table/of/the/tracker.c", NULL };
static const char* FUNCS[] = { "fn", "a_function_with_an_exceedingly_long_name", NULL };
static const char* cf;
static const char* cn;
/* a kept text is the original or, when it does not fit, a prefix of it */
static bool same(const char* kept, const char* orig, size_t cap)
{
	if (!orig) return !kept || !*kept;
	size_t n = strlen(orig);
	if (n < cap) return !strcmp(kept, orig);
	return strlen(kept) == cap - 1 && !strncmp(kept, orig, cap - 1);
}
static void report(void* p, size_t n, char* file, char* func, int ln, void* ud)
{
	HX_CHECK(ud == &nb, "report-arg", "the report callback gets a foreign argument");
	for (int i = 0; i < nb; i++)
		if (B[i].p == p)
		{
			HX_CHECK(!B[i].seen, "report-twice", "a block is reported twice");
			HX_CHECK(n == B[i].n, "report-size", "a block of %zu bytes is reported with %zu", B[i].n, n);
			HX_CHECK(ln == B[i].line, "report-line", "line %d is reported instead of %d", ln, B[i].line);
			HX_CHECK(same(file, B[i].file, 128), "report-file", "file '%s' is reported instead of '%s'", file, B[i].file ? B[i].file : "(none)");
			HX_CHECK(same(func, B[i].func, 32), "report-func", "function '%s' is reported instead of '%s'", func, B[i].func ? B[i].func : "(none)");
			B[i].seen = true;
			return;
		}
	hx_fail("report-foreign", "a block that is not allocated is reported");
}
static void audit(bool cb)
{
	size_t want = 0;
	for (int i = 0; i < nb; i++) want += B[i].n, B[i].seen = false;
	if (!on) want = 0;
	size_t r = allocation_tracker_expect_no_allocations(cb ? report : NULL, cb ? &nb : NULL);
	HX_CHECK(r == want, "leak-sum", "%zu bytes are reported as not released, it is %zu", r, want);
	if (cb && on) for (int i = 0; i < nb; i++) HX_CHECK(B[i].seen, "report-missing", "a live block of %zu bytes is not reported", B[i].n);
	if (cb && !on) for (int i = 0; i < nb; i++) HX_CHECK(!B[i].seen, "report-off", "the tracker is off and reports");
}
static void look(void)
{
	for (int i = 0; i < nb; i++)
	{
		for (size_t k = 0; k < B[i].n; k++) HX_CHECK(B[i].p[k] == B[i].tag, "contents", "byte %zu of a live block of %zu changed", k, B[i].n);
		if (on) HX_CHECK(allocation_tracker_ptr_size(99, B[i].p) == B[i].n, "ptr-size", "a block of %zu bytes is said to have %zu", B[i].n, allocation_tracker_ptr_size(99, B[i].p));
	}
	audit(true);
	hx_trans(1);
	uint64_t h = on;
	for (int i = 0; i < nb; i++) h += hx_mix(7, B[i].n);
	hx_state(h);
	obs = hx_mix(obs, h);
}
static void add(void* p, size_t n, size_t cap)
{
	B[nb].p = p, B[nb].n = n, B[nb].tag = ++tagc, B[nb].line = line, B[nb].file = cf, B[nb].func = cn;
	size_t real = sq_block_size(p);
	if (!on) HX_CHECK(real >= n, "usable", "%zu bytes asked for, the block has %zu", n, real);
	(void)cap;
	memset(p, B[nb].tag, n);    /* ASan knows the real size */
	nb++;
}
static void drop(int i) { B[i] = B[--nb]; }
static const size_t SZ[] = { 0, 1, 8, 33 };
static void op_new(int kind, size_t n)
{
	uint8_t* p;
	line++;
	cf = FILES[line % 3], cn = FUNCS[line / 2 % 3];
	hx_log("%s %zu", kind == 0 ? "malloc" : kind == 1 ? "calloc" : kind == 2 ? "strdup" : kind == 3 ? "strndup" : "realloc(NULL)", n);
	char text[64];
	memset(text, 'q', sizeof text);
	text[n] = 0;
	size_t want = n;
	switch (kind)
	{
	case 0: p = lcu_malloc_trace(n, cf, cn, line); break;
	case 1: p = n == 33 ? lcu_calloc_trace(3, 11, cf, cn, line) : lcu_calloc_trace(n, 1, cf, cn, line); break;
	case 2: p = (uint8_t*)lcu_strdup_trace(text, cf, cn, line); want = n + 1; break;
	case 3:
	{	/* a limit, or a limit that is none: the copy then is the whole text */
		static const size_t LIM[] = { 8, SIZE_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX + 1, (size_t)PTRDIFF_MAX, (size_t)INT_MAX };
		size_t lim = LIM[line % 2 ? 0 : 1 + line / 2 % 5];
		p = (uint8_t*)lcu_strndup_trace(text, lim, cf, cn, line);
		want = (n < lim ? n : lim) + 1;
		break;
	}
	default: p = lcu_realloc_trace(NULL, n, cf, cn, line); break;
	}
	if (kind == 4 && !n) { HX_CHECK(!p, "realloc-zero", "reallocating nothing to nothing gives a block"); return; }
	HX_CHECK(p, "alloc", "allocation of %zu bytes failed", n);
	if (kind == 1) for (size_t k = 0; k < n; k++) HX_CHECK(p[k] == 0, "calloc-zero", "byte %zu of a zeroed block is %d", k, p[k]);
	if (kind == 2 || kind == 3) HX_CHECK(strlen((char*)p) == want - 1 && !strncmp((char*)p, text, want - 1), "strdup", "the copy of a %zu byte text is '%s'", n, (char*)p);
	if (kind == 4)
	{	/* it may round up what it gives */
		if (on) { want = allocation_tracker_ptr_size(99, p); HX_CHECK(want >= n, "usable", "%zu bytes asked for, %zu given", n, want); }
	}
	add(p, want, want);
}
static void op_realloc(int i, size_t n)
{
	line++;
	cf = FILES[line % 3], cn = FUNCS[line / 2 % 3];
	hx_log("realloc %zu -> %zu", B[i].n, n);
	uint8_t* old = B[i].p;
	uint8_t* p = lcu_realloc_trace(old, n, cf, cn, line);
	if (!n) { HX_CHECK(!p, "realloc-zero", "reallocating to 0 bytes gives a block"); drop(i); return; }
	HX_CHECK(p, "realloc", "reallocation to %zu failed", n);
	size_t keep = B[i].n < n ? B[i].n : n;
	for (size_t k = 0; k < keep; k++) HX_CHECK(p[k] == B[i].tag, "realloc-contents", "byte %zu of %zu is lost when a block is resized to %zu", k, B[i].n, n);
	size_t want = n;
	if (on) { want = allocation_tracker_ptr_size(99, p); HX_CHECK(want >= n, "usable", "%zu bytes asked for, %zu given", n, want); }
	if (p == old && on) { cf = B[i].file, cn = B[i].func; int l = line; line = B[i].line; drop(i); add(p, want, want); line = l; return; }
	drop(i);
	add(p, want, want);
}
/* the bytes on either side of a tracked block */
static int guard_len(void) { return (int)(allocation_tracker_resize_for_canary(0) / 2); }
static void start(bool use)
{
	nb = 0, line = 0, obs = 0, tagc = 0, on = use;
	if (on) { allocation_tracker_init(); allocation_tracker_init(); }
}
static void finish(void)
{
	while (nb)
	{
		void* p = B[nb - 1].p;
		if (nb & 1) { lcu_free_and_reset(&p); HX_CHECK(!p, "reset", "the pointer is not reset"); }
		else lcu_free(p);
		nb--;
		audit(nb & 1);
	}
	lcu_free(NULL);
	lcu_free_and_reset(NULL);
	allocation_tracker_uninit();
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void hist(void)
{
	start(hx_choose(2, "tracker"));
	int steps = HX_T(4, 5);
	for (int s = 0; s < steps; s++)
	{
		int na = 5 * 3, c = hx_choose(na + nb * 4, "operation");
		if (c < na) op_new(c / 3, SZ[c % 3 + (c / 3 & 1)]);
		else
		{
			c -= na;
			int i = c % nb;
			switch (c / nb)
			{
			case 0: { void* p = B[i].p; drop(i); lcu_free(p); break; }
			case 1: op_realloc(i, B[i].n + 5); break;
			case 2: op_realloc(i, B[i].n / 2); break;
			default: op_realloc(i, 2100); break;
			}
		}
		look();
	}
	finish();
}
/* many blocks: the table grows, nothing is forgotten */
static void many(void)
{
	start(true);
	static void* p[66000];
	int n = hx_choose(5, "blocks");
	n = n < 4 ? 1 + 700 * n : 65600;
	size_t sum = 0;
	for (int i = 0; i < n; i++) { p[i] = lcu_malloc_trace((size_t)(i % 7), __FILE__, __func__, i); memset(p[i], i, (size_t)(i % 7)); sum += (size_t)(i % 7); }
	int stride = 1 + hx_choose(5, "stride");
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == sum, "leak-sum", "%zu bytes are live", sum);
	for (int i = 0; i < n; i += stride) { lcu_free(p[i]); sum -= (size_t)(i % 7); }
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == sum, "leak-sum", "%zu bytes are live after freeing every %d", sum, stride);
	for (int i = 0; i < n; i++) if (i % stride) { for (int k = 0; k < i % 7; k++) HX_CHECK(((uint8_t*)p[i])[k] == (uint8_t)i, "contents", "contents changed"); lcu_free(p[i]); }
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "leak-sum", "everything is released");
	finish();
}
/* large blocks */
static const size_t limits[] = { SIZE_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX + 1, PTRDIFF_MAX, INT_MAX, SIZE_MAX - 15, (size_t)UINT_MAX + 2 };
enum { NLIM = sizeof limits / sizeof *limits };
static void scale(void)
{
	start(hx_choose(2, "tracker"));
	size_t n = scale_n[hx_choose(NSCALE, "size")];
	int kind = hx_choose(6, "operation"), then = hx_choose(4, "then");
	char* text = malloc(n + 1);
	for (size_t i = 0; i < n; i++) text[i] = (char)(pat(i) | 1);
	text[n] = 0;
	uint8_t* small = lcu_malloc(3);
	size_t sn = 3, want = n;
	memset(small, 9, 3);
	uint8_t* p = kind == 0 ? lcu_malloc(n) : kind == 1 ? lcu_calloc(n / 5 + 1, 5) : kind == 2 ? (uint8_t*)lcu_strdup(text) : kind == 3 ? (uint8_t*)lcu_strndup(text, n - 1) : kind == 5 ? (uint8_t*)lcu_strndup(text, limits[n % NLIM]) : lcu_realloc(NULL, n);
	HX_CHECK(p, "alloc", "allocation of %zu bytes failed", n);
	if (kind == 1) { want = (n / 5 + 1) * 5; for (size_t i = 0; i < want; i++) if (p[i]) hx_fail("calloc-zero", "byte %zu of %zu", i, want); }
	if (kind == 2 || kind == 5) { want = n + 1; HX_CHECK(!strcmp((char*)p, text), "strdup", "the copy of a text of %zu differs", n); }
	if (kind == 3) HX_CHECK(strlen((char*)p) == n - 1 && !strncmp((char*)p, text, n - 1), "strdup", "the limited copy of a text of %zu has %zu", n, strlen((char*)p));
	if (on && kind != 4) HX_CHECK(allocation_tracker_ptr_size(99, p) == want, "ptr-size", "%zu instead of %zu", allocation_tracker_ptr_size(99, p), want);
	if (on) want = allocation_tracker_ptr_size(99, p);
	HX_CHECK(want >= n, "usable", "%zu bytes asked for, %zu given", n, want);
	patfill(p, 3, want);
	if (then)
	{	/* grow, grow far, shrink */
		size_t m = then == 1 ? want + 1 : then == 2 ? want * 3 + 5000 : want / 3;
		uint8_t* q = lcu_realloc(p, m);
		HX_CHECK(q, "realloc", "%zu to %zu failed", want, m);
		HX_CHECK(!patcmp(q, 3, want < m ? want : m), "realloc-contents", "the contents are lost when %zu bytes become %zu", want, m);
		p = q;
		want = on ? allocation_tracker_ptr_size(99, p) : m;
		HX_CHECK(want >= m, "usable", "%zu bytes asked for, %zu given", m, want);
		patfill(p, 3, want);
	}
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == (on ? want + sn : 0), "leak-sum", "two live blocks of %zu and 3", want);
	if (on)
	{
		int at = hx_choose(3, "overwritten");
		if (at)
		{
			uint8_t* q = at == 1 ? p - 1 : p + want;
			*q ^= 0x10;
			HX_CHECK(SQ_ABORTS(lcu_free(p)), "overrun-free", "a byte %s a block of %zu was overwritten, releasing it does not notice", at == 1 ? "before" : "behind", want);
			return;
		}
	}
	lcu_free(p);
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == (on ? sn : 0) && small[0] == 9 && small[2] == 9, "leak-sum", "one block of 3 is live");
	lcu_free(small);
	free(text);
	finish();
	hx_outcome(n * 16 + (uint64_t)kind), hx_state(n * 64 + (uint64_t)(kind * 8 + then));
}
/* every byte next to a block */
static void guard(void)
{
	start(true);
	size_t n = (size_t)hx_choose(10, "size") * 3;
	int G = guard_len(), off = hx_choose(2 * G, "offset");
	int how = hx_choose(4, "how");
	uint8_t* other = lcu_malloc(5);
	uint8_t* p = how == 3 ? lcu_realloc(lcu_malloc(1), n + 1) : how == 2 ? lcu_calloc(1, n) : lcu_malloc(n);
	n = allocation_tracker_ptr_size(99, p);
	memset(p, 1, n);
	uint8_t* q = off < G ? p - G + off : p + n + off - G;
	int v = hx_choose(HX_T(20, 256), "value");
	uint8_t nv = hx_tier ? (uint8_t)v : v < 9 ? (uint8_t)"tinybird"[v] : v < 14 ? (uint8_t)(*q ^ (1 << (v - 9))) : v < 17 ? (uint8_t)(0xff >> (v - 14)) : (uint8_t)(0x80 >> (v - 17));
	bool changed = nv != *q;
	*q = nv;
	/* the neighbour is fine all the same */
	if (how & 1)
	{
		bool ab = SQ_ABORTS(lcu_free(p));
		HX_CHECK(ab == changed, "overrun-free", "byte %d of a %zu-byte block %s, releasing it %s", off < G ? off - G : (int)n + off - G, n, changed ? "was overwritten" : "is intact", ab ? "aborts" : "does not notice");
		if (!ab) { lcu_free(other); finish(); }
		return;
	}
	bool ab = SQ_ABORTS(allocation_tracker_expect_no_allocations(NULL, NULL));
	HX_CHECK(ab == changed, "overrun-check", "byte %d of a %zu-byte block %s, the leak check %s", off < G ? off - G : (int)n + off - G, n, changed ? "was overwritten" : "is intact", ab ? "aborts" : "does not notice");
	if (!ab) { lcu_free(p); lcu_free(other); finish(); }
}
/* misuse */
static void misuse(void)
{
	start(true);
	int what = hx_choose(6, "misuse");
	int pre = hx_choose(4, "live blocks");
	for (int i = 0; i < pre; i++) op_new(0, 8);
	uint8_t* p = lcu_malloc(10);
	static uint8_t foreign[64];
	bool ab;
	switch (what)
	{
	case 0: lcu_free(p); ab = SQ_ABORTS(lcu_free(p)); HX_CHECK(ab, "double-free", "a double free is not noticed"); break;
	case 1: ab = SQ_ABORTS(lcu_free(foreign + 16)); HX_CHECK(ab, "foreign-free", "releasing a foreign pointer is not noticed"); break;
	case 2: ab = SQ_ABORTS(lcu_free(p + 1)); HX_CHECK(ab, "inner-free", "releasing the inside of a block is not noticed"); break;
	case 3: ab = SQ_ABORTS(allocation_tracker_notify_free(7, p)); HX_CHECK(ab, "other-allocator", "releasing through another allocator is not noticed"); break;
	case 4: ab = SQ_ABORTS(lcu_realloc(foreign + 16, 5)); HX_CHECK(ab, "foreign-realloc", "reallocating a foreign pointer is not noticed"); break;
	default: lcu_free(p); ab = SQ_ABORTS(lcu_realloc(p, 50)); HX_CHECK(ab, "realloc-freed", "reallocating a released block is not noticed"); break;
	}
	hx_trans(1);
}
/* no memory, impossible sizes */
static void fail(void)
{
	start(hx_choose(2, "tracker"));
	op_new(0, 8);
	op_new(2, 8);
	look();
	int what = hx_choose(10, "operation");
	size_t before = B[1].n;
	void* p = NULL;
	if (what < 6)
	{
		sq_fail_alloc(1, true);
		switch (what)
		{
		case 0: p = lcu_malloc(5); break;
		case 1: p = lcu_calloc(5, 5); break;
		case 2: p = lcu_strdup("text"); break;
		case 3: p = lcu_strndup("text", 2); break;
		case 4: p = lcu_realloc(NULL, 5); break;
		default: p = lcu_realloc(B[1].p, before + 5); break;
		}
		sq_fail_alloc(0, false);
	}
	else if (what == 6) { static const size_t h[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 16, SIZE_MAX / 2 }; p = lcu_malloc(h[hx_choose(5, "huge")]); }
	else if (what == 7) { static const size_t h[][2] = { { SIZE_MAX, 2 }, { 1ul << 32, 1ul << 32 }, { (1ul << 63) + 4, 2 }, { SIZE_MAX, 1 }, { SIZE_MAX / 8, 8 } }; int k = hx_choose(5, "huge"); p = lcu_calloc(h[k][0], h[k][1]); }
	else if (what == 8) { static const size_t h[] = { SIZE_MAX, SIZE_MAX - 2000, SIZE_MAX - 2047, SIZE_MAX - 2048, SIZE_MAX - 2060 }; p = lcu_realloc(NULL, h[hx_choose(5, "huge")]); }
	else { static const size_t h[] = { SIZE_MAX, SIZE_MAX - 2000, SIZE_MAX - 2047, SIZE_MAX - 2048, SIZE_MAX - 2060 }; p = lcu_realloc(B[1].p, h[hx_choose(5, "huge")]); }
	HX_CHECK(!p, "out-of-memory", "an allocation that cannot be satisfied gives a block");
	look();           /* nothing changed */
	finish();
}
static void reset(void)
{
	start(true);
	int n = hx_choose(4, "blocks");
	for (int i = 0; i < n; i++) op_new(i, 8);
	int gl = guard_len();
	allocation_tracker_reset();
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "reset", "blocks are still tracked after a reset");
	for (int i = 0; i < n; i++) sq_free(B[i].p - gl);
	nb = 0;
	op_new(1, 8);
	look();
	finish();
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0 && allocation_tracker_ptr_size(99, &n) == 0 && allocation_tracker_resize_for_canary(5) == 5, "off", "the switched-off tracker answers");
	on = false;
	op_new(0, 8);
	look();
	finish();
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "blocks of 255 .. 131073 bytes, resized up and down, overwritten before and behind, tracker on and off" },
	{ "misuse", misuse, 0, 0, "double, foreign, inner and cross-allocator releases with 0..3 other blocks" },
	{ "failing", fail, 0, 0, "every operation without memory and with sizes that overflow, tracker on and off" },
	{ "reset", reset, 0, 0, "reset and uninit with 0..3 blocks" },
	{ "guard bytes", guard, 0, 0, "every byte before and after blocks of 10 sizes overwritten, noticed at release and at the leak check" },
	{ "many", many, 0, 0, "1 .. 65600 blocks, every stride of releasing" },
	{ "history", hist, 0, 0, "every sequence of malloc/calloc/strdup/strndup/realloc/free, tracker on and off, leak report compared after each" },
};
const int hx_n_scenarios = 7;
