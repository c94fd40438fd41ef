/* L05: global initialisation and cleanup in every order, with failures. */
#include "cx.h"
#include <stdarg.h>
#include <pthread.h>
#include "log/xlog.h"
#include "log/slog.h"
#include "time/time_util.h"
#include "lcu.h"
#include <sys/time.h>
static char last[900];
static int ncb, in_cb;
int xm_vprintf(const char* fmt, va_list ap) { (void)fmt, (void)ap; return 1; }
int xm_printf(const char* fmt, ...) { (void)fmt; return 1; }
int xm_puts(const char* s) { (void)s; return 1; }
int xm_putchar(int c) { return c; }
static void cb(LogLevel l, void* m, size_t n, void* u)
{
	(void)l;
	HX_CHECK(u == last && n < sizeof last, "callback", "the callback gets damaged arguments");
	in_cb++;
	cx_point("callback");
	HX_CHECK(in_cb == 1, "callback-overlap", "two user callbacks run at the same time although the initialisation succeeded");
	memcpy(last, m, n), ncb++, in_cb--;
}
static void say(int id)
{
	int before = ncb;
	char t[40];
	sprintf(t, "message %d", id);
	__xlog_internal_print(LOG_LEVEL_INFO, NULL, NULL, 0, "%s", t);
	HX_CHECK(ncb == before + 1 && strstr(last, t), "message", "%s is not delivered", t);
}
static struct timeval now;
int ct_gettimeofday(struct timeval* tv, void* z) { (void)z; *tv = now; return 0; }
static void show(int id)
{
	struct timeval tv = { 1700000000 + id % 3, 1000L * id };
	char b[TIME_STR_SIZE + 8], w[64];
	memset(b, 0, sizeof b);
	now = tv;
	if (id & 1) time_util_get_time_str_current(b, 0); else time_util_get_time_str(&tv, b, 0);
	sprintf(w, "11-14 22:13:%02d.%03d", 20 + id % 3, id);
	HX_CHECK(!strcmp(b, w), "time", "'%s' is given instead of '%s'", b, w);
}
static void cfg(void)
{
	xlog_auto_level_up(LOG_LEVEL_OFF);
	xlog_set_min_level(LOG_LEVEL_VERBOSE);
	xlog_set_default_tag("tag");
	xlog_set_timezone(0);
	xlog_set_user_callback(cb, last);
	xlog_set_target(LOG_TARGET_USER_CALLBACK);
	xlog_set_format(LOG_FORMAT_RAW);
}
static void nothing_left(const char* when)
{
	HX_CHECK(cx_sync_left() == 0 && cx_live() == 0, "left", "%d lock(s) and %d block(s) are left %s", cx_sync_left(), cx_live(), when);
}
static int ops, op[12], kill_at, kill_kind, kill_k;
static void* t_say(void* a) { (void)a; __xlog_internal_print(LOG_LEVEL_INFO, NULL, NULL, 0, "x"); return NULL; }
static bool other;
static void body(void* a)
{
	(void)a;
	cfg();
	int depth = 0, good = 0, full = -1;
	for (int i = 0; i < ops; i++)
	{
		int r;
		bool fired = false;
		switch (op[i])
		{
		case 0:
			if (i == kill_at) { if (kill_kind == 0) cx_fail_alloc(kill_k, false); else if (kill_kind == 1) cx_fail_alloc(kill_k, true); else cx_fail_init(kill_k); }
			r = lcu_global_init();
			if (i == kill_at) fired = kill_kind < 2 ? cx_alloc_fired() : cx_init_fired();
			cx_fail_alloc(0, false), cx_fail_init(0);
			if (depth++) { if (good) HX_CHECK(r == 0, "init-again", "a repeated initialisation gives %d", r); }
			else
			{
				good = !fired;
				HX_CHECK((r == 0) == good, "init-result", "an initialisation %s gives %d", fired ? "in which a lock could not be made" : "without failures", r);
				if (good && full < 0) full = cx_sync_left();
				if (good) HX_CHECK(cx_sync_left() == full, "init-partial", "an initialisation that succeeds makes %d locks, another one %d", cx_sync_left(), full);
			}
			break;
		case 1:
			r = lcu_global_cleanup();
			if (depth) depth--;
			if (good || !depth) HX_CHECK(good ? r == 0 : true, "cleanup-result", "the cleanup gives %d", r);
			if (!depth) good = 0;
			break;
		case 2: say(i); break;
		default: show(i); break;
		}
		if (!depth) nothing_left("after the last cleanup");
		else if (good) HX_CHECK(cx_sync_left() == full, "init-gone", "a cleanup released what another user still needs");
	}
	if (depth && good && other)
	{	/* the locks are there: callbacks of two threads do not overlap */
		pthread_t t;
		pthread_create(&t, NULL, t_say, NULL);
		__xlog_internal_print(LOG_LEVEL_INFO, NULL, NULL, 0, "y");
		pthread_join(t, NULL);
	}
	while (depth--) lcu_global_cleanup();
	nothing_left("at the end");
	/* and it starts again */
	HX_CHECK(lcu_global_init() == 0, "init-new", "a new initialisation fails");
	say(100), show(101);
	HX_CHECK(lcu_global_cleanup() == 0, "cleanup-new", "the cleanup of a new initialisation fails");
	nothing_left("at the end");
}
static void go(void)
{
	slog_set_min_level(LOG_LEVEL_OFF);
	ncb = in_cb = 0;
	cx_run(body, NULL);
	HX_CHECK(cx_stuck() == 0, "stuck", "a thread waits for ever");
	uint64_t h = 7;
	for (int i = 0; i < ops; i++) h = hx_mix(h, (uint64_t)op[i]);
	hx_state(hx_mix(h, (uint64_t)(kill_at * 100 + kill_kind * 10 + kill_k))), hx_outcome((uint64_t)ncb);
}
static void orders(void)
{
	cx_opt.one_schedule = true;
	ops = HX_T(8, 10), other = false;
	kill_at = -1;
	for (int i = 0; i < ops; i++) op[i] = hx_choose(4, "operation");
	go();
}
static void failures(void)
{
	cx_opt.one_schedule = true;
	ops = HX_T(6, 8), other = false;
	kill_at = hx_choose(ops, "the operation that fails");
	for (int i = 0; i < ops; i++) op[i] = i == kill_at ? 0 : hx_choose(4, "operation");
	kill_kind = hx_choose(3, "what fails"), kill_k = 1 + hx_choose(4, "which");
	go();
}
static void afterwards(void)
{
	int k = hx_choose(4, "which");
	kill_at = 0, kill_kind = hx_choose(3, "what fails"), kill_k = k + 1;
	other = true, ops = 3;
	op[0] = 0, op[1] = 1, op[2] = 0;
	go();
}
const hx_scn_t hx_scenarios[] = {
	{ "orders", orders, 0, 0, "every sequence of initialisation, cleanup, log call and time text" },
	{ "failures", failures, 0, 0, "every sequence in which one initialisation meets a failure, at every allocation and lock it makes" },
	{ "afterwards", afterwards, 2, 3, "after a failed initialisation, its cleanup and a new one, two threads log" },
};
const int hx_n_scenarios = sizeof hx_scenarios / sizeof *hx_scenarios;
