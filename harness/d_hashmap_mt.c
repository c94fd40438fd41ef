/* D02: with lock callbacks every history of concurrent map operations is
 * explained by some order of whole operations (linearizability). */
#include "cx.h"
#include "data/hashmap.h"
#include "log/slog.h"
#include <pthread.h>

static pthread_mutex_t mu;
static int acq(void* a) { return pthread_mutex_lock(a); }
static int rel(void* a) { return pthread_mutex_unlock(a); }
static int spread;
static int hf(const void* k) { return spread ? (int)(intptr_t)k : (int)(intptr_t)k & 1; }
static bool eq(const void* a, const void* b) { return a == b; }
typedef struct { int op, key, res; long inv, ret; } rec_t;   /* op: 0 put 1 get 2 remove 3 foreach-sum 4 clear */
static rec_t rec[8];
static int nth, nop;
static long clk;
static hashmap_t* m;
static int vtag;

static int others;
#define OTHER (1 << 20)
static bool sum(void* k, void* v, void* c) { (void)k; *(int*)c += (int)(intptr_t)v % OTHER; return true; }
static void doop(rec_t* r)
{
	cx_event("inv", r->op, r->key);
	cx_event("inv", r->op, r->key);
	r->inv = ++clk;
	void* k = (void*)(intptr_t)(r->key + 2);
	int s = 0;
	switch (r->op)
	{
	case 0: r->res = (int)(intptr_t)hashmap_put(m, k, (void*)(intptr_t)(1 << (r - rec))); break;
	case 1: r->res = (int)(intptr_t)hashmap_get(m, k); break;
	case 2: r->res = (int)(intptr_t)hashmap_remove(m, k); break;
	case 3: hashmap_foreach(m, sum, &s); r->res = s; break;
	case 5: r->res = (int)hashmap_size(m); break;
	default: hashmap_clear(m); r->res = 0;
	}
	cx_event("ret", r->op, r->res);
	r->ret = ++clk;
}
static void* th(void* a)
{
	int t = (int)(intptr_t)a;
	for (int i = 0; i < nop; i++) doop(&rec[t * nop + i]);
	return NULL;
}
static int finals[4];
static bool lin(int* st, unsigned done)
{
	int n = nth * nop;
	if (done == (1u << n) - 1) return !memcmp(st, finals, sizeof finals);
	for (int i = 0; i < n; i++)
	{
		if (done & (1u << i)) continue;
		bool ok = true;
		for (int j = 0; j < n; j++) if (!(done & (1u << j)) && j != i && rec[j].ret < rec[i].inv) ok = false;
		if (!ok) continue;
		int s2[4];
		memcpy(s2, st, sizeof s2);
		int res = 0;
		switch (rec[i].op)
		{
		case 0: res = s2[rec[i].key]; s2[rec[i].key] = 1 << i; break;
		case 1: res = s2[rec[i].key]; break;
		case 2: res = s2[rec[i].key]; s2[rec[i].key] = 0; break;
		case 3: for (int k = 0; k < 4; k++) res += s2[k]; break;
		case 5: for (int k = 0; k < 4; k++) res += s2[k] != 0; res += others; break;
		default: memset(s2, 0, sizeof s2);
		}
		if (res == rec[i].res && lin(s2, done | (1u << i))) return true;
	}
	return false;
}
static int pre;
static void body(void* a)
{
	(void)a;
	slog_set_min_level(LOG_LEVEL_OFF);
	pthread_mutex_init(&mu, NULL);
	hashmap_lock_t l = { &mu, acq, rel };
	m = hashmap_create(0, hf, NULL, NULL, eq, &l);
	HX_CHECK(m, "create", "creation failed");
	int init[4] = { 0 };
	for (int i = 0; i < pre; i++) { init[i] = 64 << i; hashmap_put(m, (void*)(intptr_t)(i + 2), (void*)(intptr_t)init[i]); }
	for (int i = 0; i < others; i++) hashmap_put(m, (void*)(intptr_t)(100 + i), (void*)(intptr_t)OTHER);
	pthread_t t[3];
	for (int i = 0; i < nth; i++) pthread_create(&t[i], NULL, th, (void*)(intptr_t)i);
	for (int i = 0; i < nth; i++) pthread_join(t[i], NULL);
	int n = 0;
	for (int i = 0; i < 4; i++) { finals[i] = (int)(intptr_t)hashmap_get(m, (void*)(intptr_t)(i + 2)); n += finals[i] != 0; }
	for (int i = 0; i < others; i++) n += hashmap_get(m, (void*)(intptr_t)(100 + i)) == (void*)(intptr_t)OTHER;
	HX_CHECK((int)hashmap_size(m) == n, "size", "%zu entries reported, %d are there", hashmap_size(m), n);
	HX_CHECK(lin(init, 0), "not-linearizable", "no order of the operations explains their results and the final contents");
	hashmap_free(m);
	pthread_mutex_destroy(&mu);
	cx_check_leaks("leak");
}
static void run(int th_, int op_, int nops, bool size)
{
	static const int ops_[][2] = { { 0, 0 }, { 0, 2 }, { 2, 0 }, { 1, 2 }, { 3, 0 }, { 0, 1 }, { 4, 0 } };
	static const int ops_s[][2] = { { 0, 0 }, { 2, 0 }, { 1, 0 }, { 5, 0 }, { 3, 0 }, { 0, 1 } };
	const int (*ops)[2] = size ? ops_s : ops_;
	nth = th_, nop = op_;
	pre = hx_choose(2, "prefilled");
	others = spread = 0;
	for (int i = 0; i < nth * nop; i++)
	{
		int k = hx_choose(nops, "op");
		rec[i].op = ops[k][0], rec[i].key = ops[k][1];
	}
	clk = 0;
	cx_run(body, NULL);
}
/* a table that grows in the middle: one thread puts new keys, the other works on any key */
static void growing(void)
{
	nth = 2, nop = HX_T(1, 2), pre = 3, spread = 1;
	others = hx_choose(HX_T(13, 25), "further entries");
	static const int o[] = { 1, 2, 0, 3, 5 };
	for (int i = 0; i < nop; i++) rec[i].op = i ? o[hx_choose(2, "op 2")] : 0, rec[i].key = 3;
	for (int i = nop; i < 2 * nop; i++) rec[i].op = o[hx_choose(5, "op")], rec[i].key = rec[i].op == 3 || rec[i].op == 5 ? 0 : hx_choose(3, "key");
	clk = 0;
	cx_run(body, NULL);
}
static void two(void) { run(2, 2, HX_T(6, 7), false); }
static void sized(void) { run(2, 2, HX_T(4, 6), true); }
static void three(void) { run(3, 1, 7, false); }
const hx_scn_t hx_scenarios[] = {
	{ "two-threads", two, 2, 2, "two threads with two operations each (put to colliding keys with growth, get, remove, iterate), all schedules, linearizability of every history" },
	{ "growing", growing, 2, 2, "one thread puts a new key into a table of 3 .. 15 (thorough 27) entries, the other gets, removes, replaces, iterates: growth at every point" },
	{ "size", sized, 2, 2, "two threads with two of put, remove, get, size (iterate): the size belongs to some order, too" },
	{ "three-threads", three, 2, 3, "three threads with one operation each" },
};
const int hx_n_scenarios = 4;
