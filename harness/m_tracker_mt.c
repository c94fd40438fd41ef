/* M03: the tracked allocator may be used and audited by several threads. */
#include "cx.h"
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
#include "log/slog.h"
#include <pthread.h>
typedef struct { long ai, ar, fi, fr; size_t n; } blk_t;    /* invocation/return of allocation and release */
static blk_t B[8];
static struct { long i, r; size_t sum, cbsum; } Q[4];
static int nq, nth, script[3];
static long clk;
static long tick(const char* w, long a, long b) { cx_event(w, a, b); return ++clk; }
static void rep(void* p, size_t n, char* f, char* fn, int l, void* u)
{
	HX_CHECK(p && n, "report", "a half-entered block is reported (address %p, %zu bytes)", p, n);
	HX_CHECK(!strcmp(f, "file") && !strcmp(fn, "func") && l == 5, "report", "a block is reported with '%s' '%s' %d", f, fn, l);
	*(size_t*)u += n;
}
static void* mk(int b)
{
	B[b].n = (size_t)1 << b;
	B[b].ai = tick("alloc", b, 0);
	uint8_t* p = b & 1 ? lcu_calloc_trace(1, B[b].n, "file", "func", 5) : lcu_malloc_trace(B[b].n, "file", "func", 5);
	B[b].ar = tick("allocated", b, 0);
	HX_CHECK(p, "alloc", "allocation failed");
	memset(p, b + 1, B[b].n);
	return p;
}
static void rm(int b, uint8_t* p)
{
	for (size_t k = 0; k < B[b].n; k++) HX_CHECK(p[k] == b + 1, "contents", "a block's contents changed");
	B[b].fi = tick("free", b, 0);
	lcu_free(p);
	B[b].fr = tick("freed", b, 0);
}
static void audit(void)
{
	int q = nq++;
	size_t cb = 0;
	Q[q].i = tick("audit", q, 0);
	Q[q].sum = allocation_tracker_expect_no_allocations(rep, &cb);
	Q[q].r = tick("audited", q, (long)Q[q].sum);
	Q[q].cbsum = cb;
}
static void* th(void* a)
{
	int t = (int)(intptr_t)a;
	uint8_t *p, *q;
	switch (script[t])
	{
	case 0: p = mk(2 * t); rm(2 * t, p); break;
	case 1: audit(); break;
	case 2: p = mk(2 * t); q = mk(2 * t + 1); rm(2 * t, p); rm(2 * t + 1, q); break;
	case 3: p = mk(2 * t); audit(); rm(2 * t, p); break;
	default: p = (uint8_t*)lcu_strdup_trace("abc", "file", "func", 5); HX_CHECK(p && !strcmp((char*)p, "abc"), "strdup", "the copy is wrong"); HX_CHECK(allocation_tracker_ptr_size(99, p) == 4, "ptr-size", "size %zu", allocation_tracker_ptr_size(99, p)); p = lcu_realloc_trace(p, 3, "file", "func", 5); lcu_free(p); break;
	}
	return NULL;
}
static void body(void* a)
{
	(void)a;
	slog_set_min_level(LOG_LEVEL_OFF);
	allocation_tracker_init();
	uint8_t* base = mk(7);
	pthread_t t[3];
	for (int i = 0; i < nth; i++) pthread_create(&t[i], NULL, th, (void*)(intptr_t)i);
	for (int i = 0; i < nth; i++) pthread_join(t[i], NULL);
	for (int q = 0; q < nq; q++)
	{
		HX_CHECK(Q[q].cbsum == Q[q].sum, "leak-sum", "the reported blocks have %zu bytes, the result is %zu", Q[q].cbsum, Q[q].sum);
		for (int b = 0; b < 8; b++)
		{
			if (!B[b].n) continue;
			bool in = Q[q].sum & B[b].n;
			bool must = B[b].ar < Q[q].i && (!B[b].fi || B[b].fi > Q[q].r);
			bool can = B[b].ai < Q[q].r && (!B[b].fr || B[b].fr > Q[q].i);
			HX_CHECK(!must || in, "leak-missed", "a block that is live during the whole check is not counted");
			HX_CHECK(can || !in, "leak-ghost", "a block that is not live is counted");
		}
	}
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 128, "leak-sum", "one block is left");
	rm(7, base);
	HX_CHECK(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "leak-sum", "no block is left");
	allocation_tracker_uninit();
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "lock-left", "the tracker's lock is not destroyed");
}
static void run(int n, int ns)
{
	nth = n, nq = 0, clk = 0;
	memset(B, 0, sizeof B);
	for (int i = 0; i < n; i++) script[i] = hx_choose(ns, "script");
	for (int i = 1; i < n; i++) if (script[i] < script[i - 1]) hx_prune();   /* the threads are alike */
	cx_run(body, NULL);
}
static void two(void) { run(2, 5); }
static void three(void) { run(3, 3); }
const hx_scn_t hx_scenarios[] = {
	{ "two-threads", two, 3, 3, "two threads allocating, releasing, auditing: all schedules" },
	{ "three-threads", three, 1, 2, "three threads" },
};
const int hx_n_scenarios = 2;
