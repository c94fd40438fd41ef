/* M01, second part: with lock callbacks the pool is shared by threads. */
#include "cx.h"
#include "mem/mplite.h"
#include <pthread.h>
static pthread_mutex_t mu;
static int acq(void* a) { return pthread_mutex_lock(a); }
static int rel(void* a) { return pthread_mutex_unlock(a); }
static mplite_t M;
static uint8_t pool[9 * 8];
static uint8_t* own[4];
static int osz[4], script[3], nth;
static void take(int t, uint8_t* p, int n)
{
	if (!p) return;
	HX_CHECK(p >= pool && p + n <= pool + 64 && (p - pool) % 8 == 0, "bounds", "thread %d gets a block outside the pool", t);
	for (int i = 0; i < nth; i++)
		if (i != t && own[i]) HX_CHECK(p + n <= own[i] || own[i] + osz[i] <= p, "overlap", "threads %d and %d hold overlapping blocks at %ld and %ld", t, i, (long)(p - pool), (long)(own[i] - pool));
	own[t] = p, osz[t] = n;
	for (int k = 0; k < n; k++) p[k] = (uint8_t)(t + 1);
}
static void intact(int t) { for (int k = 0; own[t] && k < osz[t]; k++) HX_CHECK(own[t][k] == t + 1, "contents", "a byte of a live block of thread %d changed", t); }
static void* th(void* a)
{
	int t = (int)(intptr_t)a, sc = script[t];
	int n = sc & 1 ? 16 : 8;
	uint8_t* p = sc & 2 ? mplite_calloc(&M, n) : mplite_malloc(&M, n);
	cx_event("got", t, p ? p - pool : -1);
	take(t, p, n);
	if (p && (sc & 4))
	{
		uint8_t* q = mplite_realloc(&M, p, 2 * n);
		if (q && q != p) own[t] = NULL;    /* the old block is no longer ours */
		cx_event("realloc", t, q ? q - pool : -1);
		if (q)
		{
			for (int k = 0; k < n; k++) HX_CHECK(q[k] == t + 1, "realloc-contents", "a byte is lost in a reallocation");
			take(t, q, 2 * n);
		}
	}
	intact(t);
	if (own[t])
	{
		p = own[t];
		own[t] = NULL;
		mplite_free(&M, p);
		cx_event("free", t, p - pool);
	}
	int fm = mplite_freemem(&M), mm = mplite_maxmem(&M);
	HX_CHECK(fm >= 0 && fm <= 64 && mm >= 0 && mm <= 64, "query", "%d bytes free, largest block %d of 64", fm, mm);
	return NULL;
}
static void body(void* a)
{
	(void)a;
	pthread_mutex_init(&mu, NULL);
	mplite_lock_t l = { &mu, acq, rel };
	memset(own, 0, sizeof own);
	HX_CHECK(mplite_init(&M, pool, 72, 8, &l) == MPLITE_OK, "init", "init failed");
	pthread_t t[3];
	for (int i = 0; i < nth; i++) pthread_create(&t[i], NULL, th, (void*)(intptr_t)i);
	for (int i = 0; i < nth; i++) pthread_join(t[i], NULL);
	HX_CHECK(mplite_freemem(&M) == 64 && mplite_maxmem(&M) == 64, "given-back", "after everything is freed %d bytes are free, the largest block has %d of 64", mplite_freemem(&M), mplite_maxmem(&M));
	HX_CHECK(M.currentCount == 0 && M.currentOut == 0, "stats-current", "%u bytes in %u blocks left over", M.currentOut, M.currentCount);
	pthread_mutex_destroy(&mu);
}
/* queries while another thread allocates: each answer is one of a moment between two calls */
static int qn;
static void* qth(void* a)
{
	(void)a;
	for (int i = 0; i < 2; i++)
	{
		uint8_t* p = i ? mplite_calloc(&M, qn) : mplite_malloc(&M, qn);
		HX_CHECK(p, "alloc", "a pool of 64 has no %d", qn);
		cx_event("got", 1, p - pool);
		mplite_free(&M, p);
		cx_event("freed", 1, 0);
	}
	return NULL;
}
static void qbody(void* a)
{
	(void)a;
	pthread_mutex_init(&mu, NULL);
	mplite_lock_t l = { &mu, acq, rel };
	qn = 8 << hx_choose(3, "size");
	HX_CHECK(mplite_init(&M, pool, 72, 8, &l) == MPLITE_OK, "init", "init failed");
	pthread_t t;
	pthread_create(&t, NULL, qth, NULL);
	for (int i = 0; i < 2; i++)
	{
		int mm = mplite_maxmem(&M), fm = mplite_freemem(&M);
		HX_CHECK(mm == 64 || mm == 32, "query", "the largest block is said to have %d bytes, while one block of %d is taken or not", mm, qn);
		HX_CHECK(fm == 64 || fm == 64 - qn, "query", "%d bytes are said to be free, while one block of %d is taken or not", fm, qn);
		cx_event("asked", mm, fm);
	}
	pthread_join(t, NULL);
	pthread_mutex_destroy(&mu);
}
static void query(void) { cx_run(qbody, NULL); }
static void run(int n)
{
	nth = n;
	for (int i = 0; i < nth; i++) script[i] = hx_choose(8, "script");
	cx_run(body, NULL);
}
static void two(void) { run(2); }
static void three(void) { run(3); }
const hx_scn_t hx_scenarios[] = {
	{ "queries", query, 3, 5, "the free and the largest space are asked for while another thread allocates" },
	{ "two-threads", two, 3, 4, "two threads each with malloc/calloc, optional realloc, free, queries: all schedules" },
	{ "three-threads", three, 1, 2, "three threads" },
};
const int hx_n_scenarios = 3;
