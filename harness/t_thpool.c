/* T01-T03: the thread pool.  PART 1: every accepted job runs exactly once;
 * PART 2: waiting; PART 3: creation, destruction, pausing. */
#include "cx.h"
#include "thread/thpool.h"
#include "log/slog.h"
#include <pthread.h>
#include <errno.h>

#define MJ 8
static threadpool P;
static int ran[MJ], done_[MJ], accepted[MJ], order[MJ], norder, running, maxrun, destroyed;
static int nested_at, nested_id;
static bool gate;
static void job(void* a);

static int add(int id)
{
	int r = thpool_add_work(P, job, (void*)(long)id);
	HX_CHECK(r == 0 || r < 0, "add-result", "adding work returns %d", r);
	accepted[id] = r == 0;
	return r;
}
static bool gate_open(void* a) { (void)a; return gate; }

static void job(void* a)
{
	int id = (int)(long)a;
	HX_CHECK(!destroyed, "job-after-destroy", "job %d starts after the pool was destroyed", id);
	HX_CHECK(id >= 0 && id < MJ, "job-argument", "a job runs with argument %d that was never submitted", id);
	ran[id]++;
	HX_CHECK(ran[id] == 1, "job-twice", "job %d runs %d times", id, ran[id]);
	order[norder++] = id;
	if (++running > maxrun) maxrun = running;
	cx_event("job runs", id, 0);
	if (nested_at == id + 1) add(nested_id);
	if (id == 7) cx_until(gate_open, NULL, "job waits for the test's gate");
	running--;
	done_[id] = 1;
	HX_CHECK(!destroyed, "destroy-while-running", "the pool was destroyed while job %d was running", id);
}

static void all_done(int n, const char* key)
{
	for (int i = 0; i < n; i++)
	{
		HX_CHECK(!accepted[i] || done_[i], key, "job %d was accepted and is %s after the wait returned", i, ran[i] ? "still running" : "not started");
		HX_CHECK(accepted[i] || !ran[i], "refused-job-ran", "job %d was refused but ran", i);
	}
}
static void reset(void)
{
	slog_set_min_level(LOG_LEVEL_OFF);
	memset(ran, 0, sizeof ran), memset(done_, 0, sizeof done_), memset(accepted, 0, sizeof accepted);
	norder = running = maxrun = destroyed = nested_at = nested_id = 0;
	gate = false;
}
static void fin(void)
{
	cx_opt.time_step_us = 600000; /* the grace period of the destruction is over after two looks at the clock */
	thpool_destroy(P);
	destroyed = 1;
	HX_CHECK(running == 0, "destroy-while-running", "destroy returned while %d job(s) were running", running);
	hx_outcome(hx_hash((uint64_t)maxrun, order, sizeof(int) * (size_t)norder));
}
static void run(void (*body)(void*))
{
	reset();
	cx_opt.time_step_us = 0;
	cx_run(body, NULL);
	cx_check_leaks("leak");
}

#if PART == 1
static void b_order(void* a)
{
	(void)a;
	P = thpool_init(1);
	HX_CHECK(P != NULL, "create", "creation failed");
	int n = HX_T(3, 4);
	for (int i = 0; i < n; i++) HX_CHECK(add(i) == 0, "add", "adding failed");
	thpool_wait(P);
	all_done(n, "job-lost");
	for (int i = 0; i < n; i++) HX_CHECK(order[i] == i, "order", "one worker ran job %d as number %d", order[i], i);
	fin();
}
static void b_many(void* a)
{
	(void)a;
	int nt = 1 + hx_choose(HX_T(2, 3), "threads"), n = HX_T(3, 3);
	P = thpool_init(nt);
	HX_CHECK(P != NULL, "create", "creation failed");
	nested_at = hx_choose(2, "job 0 submits another job");
	nested_id = 4;
	for (int i = 0; i < n; i++) HX_CHECK(add(i) == 0, "add", "adding failed");
	thpool_wait(P);
	all_done(5, "job-lost");
	HX_CHECK(maxrun <= nt, "too-many-threads", "%d jobs ran at once in a pool of %d", maxrun, nt);
	int w = thpool_num_threads_working(P);
	HX_CHECK(w == 0, "working-count", "%d threads are working after all jobs finished", w);
	fin();
}
static void* adder(void* a)
{
	int b = (int)(long)a;
	HX_CHECK(add(b) == 0, "add", "adding failed");
	HX_CHECK(add(b + 1) == 0, "add", "adding failed");
	return NULL;
}
static void b_adders(void* a)
{
	(void)a;
	P = thpool_init(1 + hx_choose(2, "threads"));
	pthread_t t;
	pthread_create(&t, NULL, adder, (void*)1L);
	add(0);
	if (hx_tier) add(3);
	pthread_join(t, NULL);
	thpool_wait(P);
	all_done(4, "job-lost");
	int p1 = -1, p2 = -1;
	for (int i = 0; i < norder; i++) if (order[i] == 1) p1 = i; else if (order[i] == 2) p2 = i;
	(void)p1, (void)p2;
	fin();
}
static void b_oom(void* a)
{
	(void)a;
	P = thpool_init(1);
	add(0);
	cx_fail_alloc(1 + hx_choose(2, "which submission runs out of memory"), false);
	int r1 = add(1), r2 = add(2);
	HX_CHECK((r1 != 0) + (r2 != 0) == cx_alloc_fired(), "oom-report", "%d allocation(s) failed, submissions returned %d %d", cx_alloc_fired(), r1, r2);
	cx_fail_alloc(0, false);
	HX_CHECK(add(3) == 0, "add-after-oom", "adding fails although memory is available again");
	HX_CHECK(thpool_add_work(P, NULL, NULL) < 0, "null-job", "a job without a function is accepted");
	thpool_wait(P);
	all_done(4, "job-lost");
	fin();
}
/* very many jobs: more than any narrow counter holds, queued up before and while they run */
static int mran, mnext, mtotal, mdone;
static void mjob(void* a)
{
	int id = (int)(long)a;
	HX_CHECK(!destroyed, "job-after-destroy", "job %d starts after the pool was destroyed", id);
	HX_CHECK(id == mnext || maxrun > 1, "order", "one worker runs job %d as number %d", id, mnext);
	HX_CHECK(id >= 0 && id < mtotal, "job-argument", "a job runs with argument %d that was never submitted", id);
	mnext++, mran++;
	if (id == 0) cx_until(gate_open, NULL, "the first job waits until many are queued");
	mdone++;
	if (mran % 64 == 0) cx_event("jobs", mran, 0);
}
static void b_scale(void* a)
{
	(void)a;
	cx_opt.no_prune = true, cx_opt.horizon = 100000000, cx_opt.one_schedule = true;
	mran = mnext = mtotal = mdone = 0;
	int nt = (int[]){ 1, 2, 8 }[hx_choose(3, "threads")];
	int n = (int[]){ 255, 256, 257, 1000, 4097, 32769, 65537 }[hx_choose(7, "jobs")];
	if (nt == 8 && n > 1000) n = 1000;
	maxrun = nt;
	gate = !hx_choose(2, "queued up");
	P = thpool_init(nt);
	HX_CHECK(P != NULL, "create", "creation failed");
	for (int r = 0; r < 2; r++)
	{
		for (int i = 0; i < n; i++) { mtotal++; HX_CHECK(thpool_add_work(P, mjob, (void*)(long)(mtotal - 1)) == 0, "add", "adding job %d failed", mtotal - 1); }
		gate = true;
		cx_event("gate", r, 0);
		thpool_wait(P);
		HX_CHECK(mdone == mtotal, "job-lost", "%d of %d jobs were done when the wait returned", mdone, mtotal);
		HX_CHECK(thpool_num_threads_working(P) == 0, "working-count", "threads are working although all jobs are done");
		n = 300;
	}
	fin();
	hx_outcome((uint64_t)mtotal * 16 + (uint64_t)nt);
}
static void s4(void) { run(b_scale); }
static void s0(void) { run(b_order); }
static void s1(void) { run(b_many); }
static void s2(void) { run(b_adders); }
static void s3(void) { run(b_oom); }
const hx_scn_t hx_scenarios[] = {
	{ "one-worker-order", s0, 3, 5, "one worker, jobs submitted while it runs: exactly once, in submission order" },
	{ "many-workers", s1, 2, 4, "1-3 workers, jobs that submit jobs, wait, destroy" },
	{ "two-submitters", s2, 2, 3, "jobs submitted by two threads at once" },
	{ "submission-without-memory", s3, 2, 4, "the k-th submission's allocation fails" },
	{ "scale", s4, 0, 0, "255 .. 65537 jobs on 1, 2 and 8 threads, queued up before or while they run" },
};
const int hx_n_scenarios = 5;

#elif PART == 2
static int left;
static void* waiter(void* a)
{
	(void)a;
	thpool_wait(P);
	all_done(2, "wait-early");
	cx_event("waiter returns", 1, 0);
	left--;
	return NULL;
}
static void b_wait(void* a)
{
	(void)a;
	P = thpool_init(1 + hx_choose(HX_T(2, 3), "threads"));
	int n = hx_choose(HX_T(3, 4), "jobs");
	nested_at = n ? hx_choose(2, "job 0 submits another job") : 0;
	nested_id = 5;
	for (int i = 0; i < n; i++) add(i);
	thpool_wait(P);
	all_done(6, "wait-early");
	/* a second round on the same pool */
	add(6);
	thpool_wait(P);
	all_done(7, "wait-early");
	thpool_wait(P);
	fin();
}
static void b_two(void* a)
{
	(void)a;
	P = thpool_init(1 + hx_choose(2, "threads"));
	pthread_t t[2];
	int nw = HX_T(1, 1 + hx_choose(2, "waiters"));
	add(0);
	if (hx_choose(2, "jobs")) add(1);
	for (int i = 0; i < nw; i++) pthread_create(&t[i], NULL, waiter, NULL);
	thpool_wait(P);
	all_done(2, "wait-early");
	for (int i = 0; i < nw; i++) pthread_join(t[i], NULL);
	fin();
}
static void b_spur(void* a)
{
	(void)a;
	cx_opt.spurious = true;
	P = thpool_init(2);
	add(0), add(1);
	thpool_wait(P);
	all_done(2, "wait-early");
	fin();
}
static void b_count(void* a)
{
	(void)a;
	P = thpool_init(2);
	add(7);
	add(1);
	int w = thpool_num_threads_working(P);
	HX_CHECK(w >= 0 && w <= 2, "working-count", "%d of 2 threads working", w);
	gate = true;
	w = thpool_num_threads_working(P);
	HX_CHECK(w >= 0 && w <= 2, "working-count", "%d of 2 threads working", w);
	thpool_wait(P);
	all_done(MJ, "wait-early");
	fin();
}
static void s0(void) { run(b_wait); }
static void s1(void) { run(b_two); }
static void s2(void) { run(b_spur); }
static void s3(void) { run(b_count); }
const hx_scn_t hx_scenarios[] = {
	{ "wait", s0, 2, 4, "pool sizes, job counts, nested submission, waiting twice, waiting idle" },
	{ "several-waiters", s1, 2, 3, "two or three threads wait at the same time" },
	{ "spurious-wakeups", s2, 2, 3, "condition waits wake without reason" },
	{ "working-count", s3, 2, 4, "a long job keeps a thread busy" },
};
const int hx_n_scenarios = 4;

#else
static int slow_clock;
static void b_destroy(void* a)
{
	(void)a;
	int nt = hx_choose(3, "threads");
	cx_opt.time_step_us = slow_clock ? 0 : 400000;
	P = thpool_init(nt);
	HX_CHECK(P != NULL, "create", "creation failed");
	int n = nt ? hx_choose(3, "jobs") : 0;
	for (int i = 0; i < n; i++) add(i);
	int w = n ? hx_choose(2, "wait before destroy") : 0;
	if (w) { thpool_wait(P); all_done(n, "wait-early"); }
	thpool_destroy(P);
	destroyed = 1;
	HX_CHECK(running == 0, "destroy-while-running", "destroy returned while %d job(s) were running", running);
	for (int i = 0; i < n; i++) HX_CHECK(ran[i] == done_[i], "job-cut", "job %d was cut short", i);
	cx_event("destroyed", 0, 0);
}
static void b_busy(void* a)
{ /* a job that runs for a while, ended by another thread */
	(void)a;
	cx_opt.time_step_us = 400000;
	P = thpool_init(HX_T(1, 2));
	add(7);
	if (hx_choose(2, "more work queued")) add(1);
	gate = true;
	thpool_destroy(P);
	destroyed = 1;
	HX_CHECK(running == 0, "destroy-while-running", "destroy returned while %d job(s) were running", running);
}
/* jobs that are still running long after the destruction began: nothing that is queued starts after them */
static int64_t entered;
static int nlong;
static bool long_enough(void* a) { (void)a; return entered && cx_now_us() >= entered + 3000000; }
static bool long_running(void* a) { (void)a; return running == nlong; }
static void longjob(void* a)
{
	int id = (int)(long)a;
	ran[id]++, running++;
	cx_event("long job runs", id, 0);
	cx_until(long_enough, NULL, "job waits until the destruction has gone on for 3 s");
	running--;
	done_[id] = 1;
	HX_CHECK(!destroyed, "destroy-while-running", "the pool was destroyed while job %d was running", id);
}
static void b_late(void* a)
{
	(void)a;
	cx_opt.time_step_us = 400000, entered = 0;
	nlong = 1 + hx_choose(2, "threads");
	P = thpool_init(nlong);
	for (int i = 0; i < nlong; i++) HX_CHECK(thpool_add_work(P, longjob, (void*)(long)(4 + i)) == 0, "add", "adding failed");
	cx_until(long_running, NULL, "main waits until all workers are busy");
	int n = hx_choose(4, "queued");
	for (int i = 0; i < n; i++) add(i);
	entered = cx_now_us();
	thpool_destroy(P);
	destroyed = 1;
	HX_CHECK(running == 0, "destroy-while-running", "destroy returned while %d job(s) were running", running);
	for (int i = 0; i < nlong; i++) HX_CHECK(done_[4 + i], "job-cut", "a running job was cut short");
	for (int i = 0; i < n; i++) HX_CHECK(!ran[i], "started-after-destroy", "queued job %d is started although the destruction began 3 s before any worker was free", i);
}
/* all workers sleep, work is added and the pool destroyed before any of them gets to run: nothing starts */
static bool all_asleep(void* a) { (void)a; return cx_blocked(1); }
static void b_asleep(void* a)
{
	(void)a;
	cx_opt.time_step_us = 400000;
	P = thpool_init(1 + hx_choose(3, "threads"));
	cx_until(all_asleep, NULL, "main waits until all workers wait for work");
	int n = 1 + hx_choose(3, "jobs");
	for (int i = 0; i < n; i++) add(i);
	cx_opt.no_prune = cx_opt.one_schedule = true;
	thpool_destroy(P);
	destroyed = 1;
	for (int i = 0; i < n; i++) HX_CHECK(!ran[i], "started-after-destroy", "job %d is started by a worker that was asleep when the destruction began", i);
}
static void b_oom(void* a)
{
	(void)a;
	cx_fail_alloc(1 + hx_choose(5, "which allocation fails"), hx_choose(2, "and all later ones"));
	P = thpool_init(2);
	int f = cx_alloc_fired();
	cx_fail_alloc(0, false);
	HX_CHECK(!(P && f), "created-without-memory", "creation reports success although %d allocation(s) failed", f);
	HX_CHECK(P || f, "create", "creation failed without a reason");
	if (P) { add(0); thpool_wait(P); all_done(1, "job-lost"); fin(); }
}
static void b_eagain(void* a)
{
	(void)a;
	cx_fail_create(1 + hx_choose(3, "which thread cannot be created"));
	P = thpool_init(2);
	int f = cx_create_fired();
	cx_fail_create(0);
	HX_CHECK(!(P && f), "created-without-thread", "creation reports success although a thread could not be created");
	HX_CHECK(P || f, "create", "creation failed without a reason");
	if (P) { add(0); thpool_wait(P); all_done(1, "job-lost"); fin(); }
}
static void b_pause(void* a)
{
	(void)a;
	cx_opt.horizon = 3000;
	P = thpool_init(HX_T(1, 2));
	add(0);
	thpool_pause(P);
	add(1);
	cx_event("paused", 0, 0);
	thpool_resume(P);
	add(2);
	if (hx_choose(2, "resume again")) thpool_resume(P);
	/* a signal may be handled after the first resume: resume until everything ran */
	for (int i = 0; i < 40 && !(done_[0] && done_[1] && done_[2]); i++)
	{
		cx_set_now_us(cx_now_us() + 1000000);
		cx_event("resume", i, 0);
		thpool_resume(P);
		extern int cx_usleep(unsigned);
		cx_usleep(1500000);
	}
	thpool_wait(P);
	all_done(3, "job-lost");
	fin();
}
/* paused workers do nothing until the resume, whether they were idle or working */
static int npaused;
static bool all_paused(void* a) { (void)a; for (int i = 1; i <= npaused; i++) if (!cx_blocked(i) || !strstr(cx_where(i), "sleep")) return false; return true; }
static bool all_settled(void* a) { (void)a; for (int i = 1; i <= npaused; i++) if (!cx_blocked(i)) return false; return true; }
static bool all_awake(void* a) { (void)a; for (int i = 1; i <= npaused; i++) if (!cx_blocked(i) || strstr(cx_where(i), "sleep")) return false; return true; }
static void b_paused(void* a)
{
	(void)a;
	extern int cx_usleep(unsigned);
	cx_opt.no_prune = cx_opt.one_schedule = true, cx_opt.horizon = 20000;
	npaused = 1 + hx_choose(3, "threads");
	int busy = hx_choose(2, "one is working"), n = hx_choose(4, "jobs added"), rounds = 1 + hx_choose(2, "pauses"), late = 0;
	P = thpool_init(npaused);
	if (busy) add(7);
	for (int r = 0; r < rounds; r++)
	{
		cx_until(all_settled, NULL, "main waits until all workers have settled");
		thpool_pause(P);
		cx_until(all_paused, NULL, "main waits until all workers are paused");
		gate = true;
		int before = norder;
		for (int i = late; i < late + n && i < 7; i++) add(i);
		late += n;
		cx_usleep(3500000);
		HX_CHECK(norder == before, "ran-while-paused", "%d job(s) are started although all workers are paused", norder - before);
		if (busy && !r) HX_CHECK(!done_[7], "ran-while-paused", "the running job goes on although its worker is paused");
		thpool_resume(P);
		thpool_wait(P);
		all_done(8, "job-lost");
		/* a signal sent to a worker that has not left its last pause yet would be one for later */
		cx_until(all_awake, NULL, "main waits until all workers have left their pause");
	}
	fin();
}
static void b_null(void* a) { (void)a; thpool_destroy(NULL); P = thpool_init(-3); HX_CHECK(P != NULL, "create", "a pool of no threads"); thpool_wait(P); thpool_destroy(P); }
static void b_twopools(void* a)
{
	(void)a;
	threadpool Q = thpool_init(1);
	P = thpool_init(1);
	add(0);
	threadpool R = P;
	P = Q;
	add(1);
	thpool_destroy(R);
	thpool_wait(Q);
	HX_CHECK(done_[1], "other-pool", "destroying one pool disturbs another");
	fin();
}
static void s0(void) { slow_clock = 0; run(b_destroy); }
static void s7(void) { slow_clock = 1; run(b_destroy); }
static void s1(void) { run(b_busy); }
static void s2(void) { run(b_oom); }
static void s3(void) { run(b_eagain); }
static void s4(void) { run(b_pause); }
static void s5(void) { run(b_null); }
static void s6(void) { run(b_twopools); }
static void s8(void) { run(b_late); }
static void s9(void) { run(b_asleep); }
static void s10(void) { run(b_paused); }
const hx_scn_t hx_scenarios[] = {
	{ "degenerate", s5, 0, 1, "no pool, a pool of no threads" },
	{ "destroy", s0, 2, 3, "pool sizes, pending jobs; the grace period of the destruction expires" },
	{ "destroy-in-grace-period", s7, 1, 2, "pool sizes, pending jobs; all threads leave while the destruction polls" },
	{ "destroy-busy", s1, 4, 5, "a job is running and others queued when the pool is destroyed" },
	{ "destroy-late", s8, 2, 3, "all workers are busy until long after the destruction began, jobs queued" },
	{ "destroy-asleep", s9, 0, 0, "all workers sleep while jobs are added and the pool is destroyed at once" },
	{ "no-memory", s2, 2, 3, "every allocation of the creation fails in turn" },
	{ "no-thread", s3, 2, 3, "every thread creation fails in turn" },
	{ "two-pools", s6, 2, 3, "two pools, one destroyed while the other works" },
	{ "pause", s4, 3, 4, "pausing and resuming while jobs are added" },
	{ "paused", s10, 0, 0, "idle and working pools of one to three threads are paused, once or twice: nothing runs before the resume" },
};
const int hx_n_scenarios = 11;
#endif
