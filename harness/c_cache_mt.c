/* C02: threads that ask for the current time as text get their own time. */
#include "cx.h"
#include <sys/time.h>
#include <pthread.h>
#include "time/time_util.h"
#include "log/slog.h"
#include "lcu.h"
typedef struct { int id, n, kind[3], tz[3]; struct timeval tv[3]; } th_t;
static th_t T[3];
static th_t* cur[8];
static int step[8];
int ct_gettimeofday(struct timeval* tv, void* z) { (void)z; int s = cx_self(); *tv = cur[s]->tv[step[s]]; return 0; }
static void want(char* b, struct timeval* tv, int tz, int file)
{	/* all times used are on 2023-11-14 (UTC) or the day after */
	long l = tv->tv_sec + tz * 3600L - 1699920000, d = 14 + l / 86400, s = l % 86400;
	snprintf(b, 64, file ? "11%02ld%02ld%02ld%02ld.%03ld" : "11-%02ld %02ld:%02ld:%02ld.%03ld", d, s / 3600, s / 60 % 60, s % 60, (long)tv->tv_usec / 1000);
}
static void* run(void* a)
{
	th_t* t = a;
	int s = cx_self();
	cur[s] = t;
	for (int i = 0; i < t->n; i++)
	{
		step[s] = i;
		char b[TIME_STR_SIZE + 8], w[64];
		memset(b, 0, sizeof b);
		int l = t->kind[i] ? time_util_get_time_str_for_file_name_current(b, t->tz[i]) : time_util_get_time_str_current(b, t->tz[i]);
		want(w, &t->tv[i], t->tz[i], t->kind[i]);
		if (strcmp(b, w)) hx_fail("foreign-time", "thread %d at %s gets '%s'", t->id, w, b);
		HX_CHECK(l == (int)strlen(w), "time-length", "the length of '%s' is %d", b, l);
		cx_event("string", t->id, i);
	}
	return NULL;
}
static int nt;
static void body(void* a)
{
	(void)a;
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	pthread_t p[3];
	for (int i = 1; i < nt; i++) pthread_create(&p[i], NULL, run, &T[i]);
	run(&T[0]);
	for (int i = 1; i < nt; i++) pthread_join(p[i], NULL);
	if (lcu_global_cleanup()) hx_fail("cleanup", "lcu_global_cleanup");
}
static const struct timeval TV[] = { { 1700000000, 1000 }, { 1700000000, 999999 }, { 1700000001, 0 }, { 1700003600, 500000 } };
static void go(int threads, int n)
{
	slog_set_min_level(LOG_LEVEL_OFF);
	nt = threads;
	/* what is in the cache before */
	for (int i = 0; i < threads; i++)
	{
		T[i].id = i, T[i].n = i == 0 ? n : n > 2 ? 2 : n;
		for (int k = 0; k < T[i].n; k++)
		{
			int c = hx_choose(threads == 2 ? 4 : 3, "time");
			T[i].tv[k] = TV[c], T[i].tz[k] = c == 3 ? 0 : k == 0 && threads == 2 ? hx_choose(2, "zone") : 0, T[i].kind[k] = threads == 2 && i == 1 && k == 0 ? hx_choose(2, "file name") : 0;
		}
	}
	cx_run(body, NULL);
	HX_CHECK(cx_stuck() == 0, "stuck", "a thread waits for ever");
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "locks-left", "a lock is not destroyed");
}
static void two(void) { go(2, 2); }
static void three(void) { go(3, 1); }
const hx_scn_t hx_scenarios[] = {
	{ "two-threads", two, 2, 3, "two threads, two requests each, over four times, two zones, two formats" },
	{ "three-threads", three, 2, 3, "three threads, one request each" },
};
const int hx_n_scenarios = 2;
