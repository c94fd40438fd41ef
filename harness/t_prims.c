/* T04: portable threads, mutexes, read-write locks and semaphores. */
#include "cx.h"
#include "thread/portable_thread.h"
#include <pthread.h>
#include <errno.h>
#define NTH 3
static portable_mutex_t M;
static portable_rwlock_t W;
static portable_sem_t S;
static portable_thread_t T[NTH + 1];
static int in_m, in_r, in_w, shared_a, shared_b, n_enter, runs[NTH + 1], passed, posted, start_value, both_in, meet;
static int prog[NTH][3], plen[NTH], waits[NTH], posts[NTH];
static unsigned long tids[NTH + 1];
static void reset(void)
{
	M = W = S = NULL;
	memset(T, 0, sizeof T);
	in_m = in_r = in_w = shared_a = shared_b = n_enter = passed = posted = both_in = meet = 0;
	memset(runs, 0, sizeof runs);
}
static void spawn(int n, void* (*fn)(void*))
{
	for (int i = 0; i < n; i++)
		HX_CHECK(portable_thread_create(&T[i], NULL, fn, (void*)(intptr_t)i) == 0 && T[i], "create", "a thread is not created");
}
static void join(int n)
{
	for (int i = 0; i < n; i++)
	{
		void* r = (void*)99;
		HX_CHECK(portable_thread_join(T[i], &r) == 0, "join", "join fails");
		HX_CHECK(r == (void*)(intptr_t)(i + 40), "join-result", "thread %d returned %d, join gives %ld", i, i + 40, (long)r);
		HX_CHECK(runs[i] == 1, "runs", "thread %d ran %d times", i, runs[i]);
	}
}
static void end(void)
{
	HX_CHECK(cx_stuck() == 0, "stuck", "a thread waits for ever (%s)", cx_where(0) ? cx_where(0) : "?");
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "locks-left", "%d lock(s) are not destroyed", cx_sync_left());
}
/* ---- mutex ---- */
static int recursive;
static void* m_thread(void* a)
{
	int id = (int)(intptr_t)a;
	runs[id]++;
	for (int i = 0; i < plen[id]; i++)
	{
		HX_CHECK(portable_mutex_lock(&M) == 0, "lock", "lock fails");
		HX_CHECK(!in_m, "exclusion", "two threads hold the mutex");
		in_m = 1;
		int v = shared_a;
		if (prog[id][i] == 1 && recursive)
		{
			HX_CHECK(portable_mutex_lock(&M) == 0, "lock-again", "a recursive mutex refuses its owner");
			HX_CHECK(portable_mutex_unlock(&M) == 0, "unlock", "unlock fails");
		}
		cx_point("inside");
		HX_CHECK(in_m == 1 && shared_a == v, "exclusion", "another thread entered while the mutex was held");
		shared_a = v + 1;
		in_m = 0;
		HX_CHECK(portable_mutex_unlock(&M) == 0, "unlock", "unlock fails");
	}
	return (void*)(intptr_t)(id + 40);
}
static void m_body(void* x)
{
	int n = (int)(intptr_t)x, want = 0;
	pthread_mutexattr_t at;
	pthread_mutexattr_init(&at);
	pthread_mutexattr_settype(&at, PTHREAD_MUTEX_RECURSIVE);
	HX_CHECK(portable_mutex_init(&M, recursive ? &at : NULL) == 0 && M, "init", "a mutex is not created");
	spawn(n, m_thread);
	join(n);
	for (int i = 0; i < n; i++) want += plen[i];
	HX_CHECK(shared_a == want, "lost-update", "%d critical sections counted %d", want, shared_a);
	HX_CHECK(portable_mutex_destroy(&M) == 0 && !M, "destroy", "the mutex is not destroyed");
}
static void mutexes(void)
{
	reset();
	recursive = hx_choose(2, "recursive");
	int n = 2 + hx_choose(2, "threads");
	for (int i = 0; i < n; i++) { plen[i] = n == 2 ? 1 + hx_choose(3, "rounds") : 1 + (i == 0); for (int k = 0; k < 3; k++) prog[i][k] = recursive && k == 0 ? hx_choose(2, "twice") : 0; }
	cx_run(m_body, (void*)(intptr_t)n);
	end();
}
/* ---- read-write lock ---- */
static void* w_thread(void* a)
{
	int id = (int)(intptr_t)a;
	runs[id]++;
	for (int i = 0; i < plen[id]; i++)
	{
		if (prog[id][i] == 0)
		{
			HX_CHECK(portable_rwlock_rdlock(&W) == 0, "rdlock", "a read lock is refused");
			in_r++;
			HX_CHECK(!in_w, "exclusion", "a reader is inside while a writer is");
			int x = shared_a;
			cx_point("reading");
			HX_CHECK(!in_w && x == shared_a && x == shared_b, "exclusion", "a reader sees %d and %d", x, shared_b);
			in_r--;
		}
		else
		{
			HX_CHECK(portable_rwlock_wrlock(&W) == 0, "wrlock", "a write lock is refused");
			HX_CHECK(!in_w && !in_r, "exclusion", "a writer enters while %d reader(s) and %d writer(s) are inside", in_r, in_w);
			in_w++;
			shared_a++;
			cx_point("writing");
			shared_b++;
			HX_CHECK(in_w == 1 && !in_r && shared_a == shared_b, "exclusion", "somebody entered during a write");
			in_w--;
		}
		HX_CHECK(portable_rwlock_unlock(&W) == 0, "rw-unlock", "unlock fails");
	}
	return (void*)(intptr_t)(id + 40);
}
static void w_body(void* x)
{
	int n = (int)(intptr_t)x, want = 0;
	HX_CHECK(portable_rwlock_init(&W, NULL) == 0 && W, "init", "a lock is not created");
	spawn(n, w_thread);
	join(n);
	for (int i = 0; i < n; i++) for (int k = 0; k < plen[i]; k++) want += prog[i][k];
	HX_CHECK(shared_a == want && shared_b == want, "lost-update", "%d writes counted %d and %d", want, shared_a, shared_b);
	HX_CHECK(portable_rwlock_destroy(&W) == 0 && !W, "destroy", "the lock is not destroyed");
}
static void rwlocks(void)
{
	reset();
	int n = 2 + hx_choose(2, "threads");
	for (int i = 0; i < n; i++)
	{
		plen[i] = n == 2 ? 2 : 1 + (i == 0);
		for (int k = 0; k < plen[i]; k++) prog[i][k] = hx_choose(2, "write");
	}
	cx_run(w_body, (void*)(intptr_t)n);
	end();
}
static bool p_meet(void* a) { (void)a; return meet == 2; }
static void* share_thread(void* a)
{
	int id = (int)(intptr_t)a;
	runs[id]++;
	HX_CHECK(portable_rwlock_rdlock(&W) == 0, "rdlock", "a read lock is refused");
	meet++;
	cx_until(p_meet, NULL, "the other reader, inside too");
	HX_CHECK(portable_rwlock_unlock(&W) == 0, "rw-unlock", "unlock fails");
	return (void*)(intptr_t)(id + 40);
}
static void share_body(void* x)
{
	(void)x;
	HX_CHECK(portable_rwlock_init(&W, NULL) == 0 && W, "init", "a lock is not created");
	spawn(2, share_thread);
	join(2);
	HX_CHECK(portable_rwlock_destroy(&W) == 0 && !W, "destroy", "the lock is not destroyed");
}
static void sharing(void) { reset(); cx_run(share_body, NULL); end(); }
/* ---- semaphore ---- */
static void* s_thread(void* a)
{
	int id = (int)(intptr_t)a;
	runs[id]++;
	for (int i = 0; i < posts[id]; i++)
	{
		posted++;        /* counted before: nobody may pass earlier */
		HX_CHECK(portable_sem_post(&S) == 0, "post", "post fails");
	}
	for (int i = 0; i < waits[id]; i++)
	{
		int r;
		while ((r = portable_sem_wait(&S)) == -1 && errno == EINTR && cx_opt.eintr) ;
		HX_CHECK(r == 0, "wait", "wait fails");
		passed++;
		HX_CHECK(passed <= start_value + posted, "count", "%d waits passed with %d + %d units", passed, start_value, posted);
		cx_event("passed", id, i);
	}
	return (void*)(intptr_t)(id + 40);
}
static void s_body(void* x)
{
	int n = (int)(intptr_t)x, v = -1;
	HX_CHECK(portable_sem_init(&S, 0, (unsigned)start_value) == 0 && S, "init", "a semaphore is not created");
	HX_CHECK(portable_sem_getvalue(&S, &v) == 0 && v == start_value, "value", "a new semaphore of %d reports %d", start_value, v);
	spawn(n, s_thread);
	join(n);
	HX_CHECK(portable_sem_getvalue(&S, &v) == 0 && v == start_value + posted - passed, "value", "%d + %d - %d units: the semaphore reports %d", start_value, posted, passed, v);
	HX_CHECK(portable_sem_destroy(&S) == 0 && !S, "destroy", "the semaphore is not destroyed");
}
static void sems(void)
{
	reset();
	int n = 2 + hx_choose(2, "threads"), w = 0, p;
	start_value = hx_choose(3, "start value");
	p = start_value;
	for (int i = 0; i < n; i++) p += posts[i] = hx_choose(3, "posts"), w += waits[i] = hx_choose(n == 2 ? 3 : 2, "waits");
	int first = 0;     /* enough units however it is ordered: a thread posts before it waits */
	for (int i = 0; i < n; i++) first |= waits[i] > 0;
	if (w > p || !first) hx_prune();
	cx_opt.eintr = hx_choose(2, "interruptions");
	cx_run(s_body, (void*)(intptr_t)n);
	end();
}
/* ---- threads ---- */
static portable_thread_attr_t AT[NTH];
static bool named[NTH], sized;
static pthread_attr_t PA[NTH];
static void* t_thread(void* a)
{
	int id = (int)(intptr_t)a;
	HX_CHECK(id >= 0 && id < NTH, "argument", "a thread gets argument %d", id);
	runs[id]++;
	tids[id] = portable_thread_gettid();
	HX_CHECK(tids[id] && tids[id] == portable_thread_gettid(), "tid", "a thread has two identifiers");
	HX_CHECK(portable_thread_set_current_name(NULL) != 0 && portable_thread_set_current_name("") != 0, "name-args", "no name is accepted");
	if (id == 2) { HX_CHECK(portable_thread_set_current_name("self") == 0, "set-name", "a name is refused"); HX_CHECK(!strcmp(cx_name(cx_self()), "self"), "set-name", "the name is not set"); }
	return (void*)(intptr_t)(id + 40);
}
static int fail_kind, fail_at;
static void t_body(void* x)
{
	int n = (int)(intptr_t)x, made[NTH];
	HX_CHECK(portable_thread_create(NULL, NULL, t_thread, NULL) != 0, "create-args", "no handle is accepted");
	HX_CHECK(portable_thread_create(&T[0], NULL, NULL, NULL) != 0, "create-args", "no function is accepted");
	HX_CHECK(portable_thread_join(NULL, NULL) != 0, "join-args", "no thread is accepted");
	if (fail_kind == 1) cx_fail_alloc(fail_at + 1, false);
	if (fail_kind == 2) cx_fail_create(fail_at + 1);
	for (int i = 0; i < n; i++)
	{
		T[i] = (void*)0x55;
		int r = portable_thread_create(&T[i], named[i] ? &AT[i] : NULL, t_thread, (void*)(intptr_t)i);
		made[i] = r == 0;
		HX_CHECK((T[i] != NULL) == made[i], "create-handle", "create gives %d and handle %p", r, T[i]);
		HX_CHECK(made[i] == !(fail_kind && i == fail_at), "create", "create gives %d", r);
	}
	if (fail_kind) HX_CHECK(cx_alloc_fired() + cx_create_fired() == (fail_at < n), "harness", "the failure was not met");
	for (int i = 0, id = 1; i < n; i++)
		if (made[i]) { if (named[i] && sized) HX_CHECK(cx_stacksize(id) == 65536u * (size_t)(i + 3), "attributes", "the attributes of thread %d are not used", i); if (named[i] && i != 2) HX_CHECK(!strcmp(cx_name(id), AT[i].name), "name", "thread %d is named '%s'", i, cx_name(id)); id++; }
	for (int i = n; i--;)
	{
		void* r = (void*)99;
		if (!made[i]) { HX_CHECK(!runs[i], "runs", "a thread that was not created ran"); continue; }
		HX_CHECK(portable_thread_join(T[i], i == 1 ? NULL : &r) == 0, "join", "join fails");
		if (i != 1) HX_CHECK(r == (void*)(intptr_t)(i + 40), "join-result", "thread %d returned %d, join gives %ld", i, i + 40, (long)r);
		HX_CHECK(runs[i] == 1, "runs", "thread %d ran %d times", i, runs[i]);
	}
	for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) if (made[i] && made[k]) HX_CHECK(tids[i] != tids[k] && tids[i] != portable_thread_gettid(), "tid", "two threads have the same identifier");
}
static void threads(void)
{
	reset();
	int n = 1 + hx_choose(3, "threads");
	sized = hx_choose(2, "attributes");
	fail_kind = hx_choose(3, "failure"), fail_at = fail_kind ? hx_choose(n, "which") : 0;
	static const char* N[] = { "", "w", "fifteen-letters" };
	for (int i = 0; i < n; i++)
	{
		int k = hx_choose(4, "name");
		memset(&AT[i], 0, sizeof AT[i]);
		named[i] = k > 0;
		if (k) strcpy(AT[i].name, N[k - 1]);
		pthread_attr_init(&PA[i]);
		pthread_attr_setstacksize(&PA[i], 65536u * (size_t)(i + 3));
		if (k) AT[i].platform_attr = sized ? &PA[i] : NULL;
	}
	cx_run(t_body, (void*)(intptr_t)n);
	end();
}
/* ---- every sequence of calls of one thread on one object, against a model ---- */
static int kind;
static void q_body(void* x)
{
	(void)x;
	void* h = NULL;
	int live = 0, held = 0, value = 0;
	uint64_t hs = (uint64_t)kind;
	/* uninitialised or absent objects are refused by every call */
	for (int k = 0; k < 2; k++)
	{
		void** p = k ? &h : NULL;
		int v = 7;
		HX_CHECK(portable_mutex_lock(p) && portable_mutex_unlock(p) && portable_mutex_destroy(p), "refuse", "an uninitialised mutex is accepted");
		HX_CHECK(portable_rwlock_rdlock(p) && portable_rwlock_wrlock(p) && portable_rwlock_unlock(p) && portable_rwlock_destroy(p), "refuse", "an uninitialised lock is accepted");
		HX_CHECK(portable_sem_wait(p) && portable_sem_post(p) && portable_sem_getvalue(p, &v) && portable_sem_destroy(p), "refuse", "an uninitialised semaphore is accepted");
		HX_CHECK(!h, "refuse", "a refused call changes the handle");
	}
	HX_CHECK(portable_mutex_init(NULL, NULL) && portable_rwlock_init(NULL, NULL) && portable_sem_init(NULL, 0, 1), "refuse", "init without a place is accepted");
	for (int i = 0; i < HX_T(7, 9); i++)
	{
		int op = hx_choose(5, "operation"), r = 0;
		switch (op)
		{
		case 0: /* init, possibly failing */
			if (live) hx_prune();
			{
				int f = hx_choose(3, "failure"), v0 = kind == 2 ? hx_choose(2, "value") : 0;
				if (f == 1) cx_fail_alloc(1, false);
				if (f == 2) cx_fail_init(1);
				h = (void*)0x77;
				r = kind == 0 ? portable_mutex_init(&h, NULL) : kind == 1 ? portable_rwlock_init(&h, NULL) : portable_sem_init(&h, 0, (unsigned)v0);
				if (f) { HX_CHECK(r != 0, "init-failure", "a failing init reports success"); HX_CHECK(!h, "init-handle", "a failing init leaves handle %p", h); HX_CHECK(cx_live() == 0, "init-leak", "a failing init leaks"); }
				else { HX_CHECK(r == 0 && h && h != (void*)0x77, "init", "init gives %d", r); live = 1, value = v0; }
				cx_fail_alloc(0, false), cx_fail_init(0);
			}
			break;
		case 1: /* lock / wait */
			if (live && (kind == 0 ? held : kind == 1 ? held < 0 : !value)) hx_prune();    /* would wait for ever */
			r = kind == 0 ? portable_mutex_lock(&h) : kind == 1 ? portable_rwlock_rdlock(&h) : portable_sem_wait(&h);
			HX_CHECK((r == 0) == live, "lock", "lock of a %s object gives %d", live ? "live" : "dead", r);
			if (live) held++, value--;
			break;
		case 2: /* unlock / post */
			if (live && kind != 2 && !held) hx_prune();
			r = kind == 0 ? portable_mutex_unlock(&h) : kind == 1 ? portable_rwlock_unlock(&h) : portable_sem_post(&h);
			HX_CHECK((r == 0) == live, "unlock", "unlock of a %s object gives %d", live ? "live" : "dead", r);
			if (live) held += held < 0 ? 1 : -1, value++;
			break;
		case 3: /* write lock / value */
			if (kind == 0) hx_prune();
			if (kind == 1)
			{
				if (live && held) hx_prune();
				r = portable_rwlock_wrlock(&h);
				HX_CHECK((r == 0) == live, "lock", "write lock of a %s object gives %d", live ? "live" : "dead", r);
				if (live) held = -1;
			}
			else
			{
				int v = -5;
				r = portable_sem_getvalue(&h, &v);
				HX_CHECK((r == 0) == live && (live ? v == value : v == -5), "value", "the value is %d, reported %d (%d)", value, v, r);
			}
			break;
		default: /* destroy */
			if (live && kind != 2 && held) hx_prune();
			r = kind == 0 ? portable_mutex_destroy(&h) : kind == 1 ? portable_rwlock_destroy(&h) : portable_sem_destroy(&h);
			HX_CHECK((r == 0) == live && !h, "destroy", "destroy of a %s object gives %d", live ? "live" : "dead", r);
			live = held = 0;
			HX_CHECK(cx_live() == 0 && cx_sync_left() == 0, "destroy-leak", "destroy leaves something behind");
		}
		hs = hx_mix(hs, (uint64_t)(op * 16 + live * 8 + (held & 7)));
		hx_state(hx_mix((uint64_t)(kind * 100 + live), (uint64_t)(held * 16 + value)));
	}
	hx_outcome(hs);
	if (live)
	{
		while (held) { if (kind == 0) portable_mutex_unlock(&h); else if (kind == 1) portable_rwlock_unlock(&h); else break; held += held < 0 ? 1 : -1; }
		if (kind == 0) portable_mutex_destroy(&h); else if (kind == 1) portable_rwlock_destroy(&h); else portable_sem_destroy(&h);
	}
}
static void sequences(void) { reset(); kind = hx_choose(3, "kind"); cx_run(q_body, NULL); end(); }
const hx_scn_t hx_scenarios[] = {
	{ "sequences", sequences, 0, 0, "every sequence of calls on a mutex, read-write lock or semaphore by one thread, initialisation failing or not" },
	{ "threads", threads, 3, 4, "up to three threads, names, every failing creation" },
	{ "sharing", sharing, 4, 6, "two readers can be inside together" },
	{ "mutex", mutexes, 4, 6, "two or three threads in critical sections, plain and recursive" },
	{ "rwlock", rwlocks, 4, 6, "every mix of reading and writing sections" },
	{ "semaphore", sems, 2, 3, "every start value and mix of posts and waits" },
};
const int hx_n_scenarios = sizeof hx_scenarios / sizeof *hx_scenarios;
