/* L03: xlog called from several threads while it is being reconfigured. */
#include "cx.h"
#include "vfs.h"
#include "log/xlog.h"
#include "log/slog.h"
#include "log/file_logger.h"
#include "lcu.h"
#include <pthread.h>
#include <stdarg.h>
#include <unistd.h>

/* ---- console: one scheduling point per access, pieces kept as they come ---- */
static char con[16000];
static size_t ncon;
static void emit(const char* s, size_t n)
{
	cx_point("console");
	HX_CHECK(ncon + n < sizeof con, "too-much", "endless output");
	memcpy(con + ncon, s, n);
	ncon += n;
	cx_event("prints", (long)n, 0);
}
void vfs_stdout(const char* s, size_t n) { emit(s, n); }
int xm_vprintf(const char* fmt, va_list ap)
{
	static char b[8000];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n > 0) emit(b, (size_t)n);
	return n;
}
int xm_printf(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = xm_vprintf(fmt, ap);
	va_end(ap);
	return r;
}
int xm_puts(const char* s) { emit(s, strlen(s)); emit("\n", 1); return 1; }
int xm_putchar(int c) { char x = (char)c; emit(&x, 1); return c; }

#define LN 700
static int in_cb, ncb, got[16], gotk[16];
static char cbtext[16][900];
static int cb_dead[3];               /* callback k may not run any more */
static bool allow_kinds;
static char longtail[LN + 1];
static void text(char* b, int id, bool lg) { sprintf(b, "<%d>%s", id, lg ? longtail : "short"); }
static void common(int k, LogLevel level, void* msg, size_t n, void* ud)
{
	HX_CHECK(in_cb++ == 0, "callback-overlap", "two user callbacks run at the same time");
	HX_CHECK(ud == (void*)&cb_dead[k], "callback-pair", "callback %d gets the user data of another one", k);
	HX_CHECK(!cb_dead[k], "callback-after-removal", "callback %d runs although it was removed", k);
	HX_CHECK(level >= 1 && level <= 5, "callback-level", "level %d", (int)level);
	HX_CHECK(n && n < 900 && ((char*)msg)[n - 1] == 0 && strlen(msg) == n - 1, "callback-text", "the callback gets a damaged message");
	char before[900];
	memcpy(before, msg, n);
	cx_point("callback");
	HX_CHECK(!memcmp(before, msg, n), "callback-text", "the message changes while the callback reads it");
	HX_CHECK(!cb_dead[k], "callback-after-removal", "callback %d still runs after it was removed", k);
	HX_CHECK(ncb < 16, "too-many", "too many callbacks");
	memcpy(cbtext[ncb], before, n);
	got[ncb] = atoi(strchr(before, '<') ? strchr(before, '<') + 1 : "-1");
	gotk[ncb++] = k;
	cx_event("callback", k, got[ncb - 1]);
	in_cb--;
}
static void cb0(LogLevel l, void* m, size_t n, void* u) { common(0, l, m, n, u); }
static void cb1(LogLevel l, void* m, size_t n, void* u) { common(1, l, m, n, u); }
static int delivered(int id) { int n = 0; for (int i = 0; i < ncb; i++) n += got[i] == id; return n; }
/* the console holds whole lines, in the order of the callbacks */
static void console_equals_callbacks(void)
{
	size_t at = 0;
	for (int i = 0; i < ncb; i++)
	{
		size_t n = strlen(cbtext[i]);
		HX_CHECK(ncon - at > n && !memcmp(con + at, cbtext[i], n) && con[at + n] == '\n', "console-line", "line %d of the console is not message <%d>, whole", i, got[i]);
		at += n + 1;
	}
	HX_CHECK(at == ncon, "console-line", "the console holds %zu bytes more than the delivered messages", ncon - at);
	uint64_t h = hx_hash((uint64_t)ncb, con, ncon);
	hx_outcome(h), hx_state(h);
}
static void run(void (*b)(void*))
{
	slog_set_min_level(LOG_LEVEL_OFF);
	vfs_reset();
	memset(longtail, 'x', LN);
	for (int i = 0; i < LN; i++) longtail[i] = (char)('a' + i % 26);
	in_cb = ncb = 0, ncon = 0, allow_kinds = false;
	cb_dead[0] = cb_dead[1] = 0;
	cx_run(b, NULL);
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "sync-left", "%d synchronisation object(s) are left behind", cx_sync_left());
}
static void start(void)
{
	HX_CHECK(lcu_global_init() == 0, "init", "lcu_global_init fails");
	xlog_auto_level_up(LOG_LEVEL_OFF);
	xlog_set_min_level(LOG_LEVEL_VERBOSE);
	xlog_set_default_tag("first");
	xlog_set_timezone(0);
	xlog_set_user_callback(cb0, &cb_dead[0]);
	xlog_set_target(LOG_TARGET_CONSOLE | LOG_TARGET_USER_CALLBACK);
	xlog_set_format(LOG_FORMAT_RAW);
	xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO);
}
static void stop(void) { HX_CHECK(lcu_global_cleanup() == 0, "cleanup", "lcu_global_cleanup fails"); }
static void say(int id, bool lg)
{
	char b[900];
	text(b, id, lg);
	__xlog_internal_print(LOG_LEVEL_INFO, NULL, NULL, 0, "%s", b);
	memset(b, '#', sizeof b);
	cx_event("said", id, 0);
}
static void whole(int id, bool lg)
{
	char b[900];
	text(b, id, lg);
	for (int i = 0; i < ncb; i++) if (got[i] == id) HX_CHECK(strlen(cbtext[i]) >= strlen(b) && !strcmp(cbtext[i] + strlen(cbtext[i]) - strlen(b), b), "text", "message <%d> is delivered damaged", id);
}
static bool LG[4];
static void* t_say(void* a) { int k = (int)(intptr_t)a; say(2 * k, LG[k]); say(2 * k + 1, false); return NULL; }
static void b_lines(void* a)
{
	(void)a;
	start();
	int n = HX_T(2, 3);
	pthread_t t[3];
	xlog_set_format((int[]){ 0, 14 }[hx_choose(2, "format")]);
	for (int i = 0; i < n; i++) LG[i] = hx_choose(2, "long");
	for (int i = 1; i < n; i++) pthread_create(&t[i], NULL, t_say, (void*)(intptr_t)i);
	t_say((void*)0);
	for (int i = 1; i < n; i++) pthread_join(t[i], NULL);
	for (int i = 0; i < 2 * n; i++)
	{
		HX_CHECK(delivered(i) == 1, "delivery", "message <%d> is delivered %d time(s)", i, delivered(i));
		whole(i, LG[i / 2] && !(i & 1));
	}
	for (int i = 0; i < n; i++)
	{
		int x = 0, y = 0;
		for (int j = 0; j < ncb; j++) { if (got[j] == 2 * i) x = j; if (got[j] == 2 * i + 1) y = j; }
		HX_CHECK(x < y, "order", "the messages of one thread are delivered in the wrong order");
	}
	console_equals_callbacks();
	stop();
}
/* a callback is replaced or removed while other threads log */
static int say_n;
static void* t_many(void* a) { for (int i = 0; i < say_n; i++) say(10 + i, i == 0 && LG[0]); return a; }
static void b_callback(void* a)
{
	(void)a;
	start();
	say_n = 2, LG[0] = hx_choose(2, "long");
	pthread_t t;
	pthread_create(&t, NULL, t_many, NULL);
	int how = hx_choose(3, "change");
	if (how == 0) { xlog_set_user_callback(cb1, &cb_dead[1]); cb_dead[0] = 1; cx_event("removed", 0, 0); }
	if (how == 1) { xlog_set_user_callback(NULL, NULL); cb_dead[0] = 1; cx_event("removed", 0, 0); }
	if (how == 2) { xlog_set_target(LOG_TARGET_CONSOLE); cb_dead[0] = 1; cx_event("removed", 0, 0); xlog_set_user_callback(NULL, NULL); }
	say(1, false);
	pthread_join(t, NULL);
	HX_CHECK(delivered(1) == (how == 0), "delivery", "the message after the change is delivered %d time(s)", delivered(1));
	for (int i = 0; i < ncb; i++) HX_CHECK(gotk[i] == 0 || how == 0, "callback-pair", "a callback runs that was never set");
	if (how == 0) for (int i = 0; i < say_n; i++) HX_CHECK(delivered(10 + i) == 1, "delivery", "message <%d> is delivered %d time(s)", 10 + i, delivered(10 + i));
	for (int i = 0; i < say_n; i++) whole(10 + i, i == 0 && LG[0]);
	int lines = 0;
	for (size_t i = 0; i < ncon; i++) lines += con[i] == '\n';
	HX_CHECK(lines == say_n + 1, "console-line", "%d lines are printed instead of %d", lines, say_n + 1);
	uint64_t h = hx_hash((uint64_t)ncb, con, ncon);
	hx_outcome(h), hx_state(h);
	stop();
}
/* level, format, default tag change while another thread logs: each message sees one setting */
static int phase, saw[4];
static void* t_watch(void* a)
{
	for (int i = 0; i < 2; i++) { saw[i] = phase; say(10 + i, false); }
	return a;
}
static void b_settings(void* a)
{
	(void)a;
	start();
	phase = 0;
	xlog_set_format(LOG_FORMAT_WITH_TAG_LEVEL);
	int how = hx_choose(4, "setting");
	pthread_t t;
	pthread_create(&t, NULL, t_watch, NULL);
	if (how == 0) xlog_set_min_level(LOG_LEVEL_WARN);
	if (how == 1) xlog_set_format(LOG_FORMAT_RAW);
	if (how == 2) xlog_set_default_tag("second-tag");
	if (how == 3) xlog_auto_level_up(LOG_LEVEL_ERROR);
	phase = 1;
	cx_event("changed", how, 0);
	pthread_join(t, NULL);
	static const char* const OLD = " I/first   : ", *const NEW[] = { NULL, "", " I/second-tag: ", " E/first   : " };
	int last_new = 0;
	for (int i = 0; i < 2; i++)
	{
		int at = -1;
		for (int j = 0; j < ncb; j++) if (got[j] == 10 + i) at = j;
		char b[900], o[900], w[900];
		text(b, 10 + i, false);
		snprintf(o, sizeof o, "%s%s", OLD, b);
		snprintf(w, sizeof w, "%s%s", NEW[how] ? NEW[how] : "", b);
		HX_CHECK(at >= 0 || how == 0, "delivery", "message <%d> is not delivered", 10 + i);
		int isnew = at < 0 || (how && !strcmp(cbtext[at], w)), isold = at >= 0 && !strcmp(cbtext[at], o);
		HX_CHECK(isnew || isold, "mixture", "message <%d> is delivered as '%s'", 10 + i, at < 0 ? "" : cbtext[at]);
		HX_CHECK(isnew || !saw[i], "old-setting", "message <%d> was logged after the setting changed but sees the old one", 10 + i);
		HX_CHECK(isnew || !last_new, "old-setting", "a later message sees an older setting");
		last_new = isnew;
	}
	console_equals_callbacks();
	stop();
}
static void* t_long(void* a) { say(10, true); return a; }
static void b_oom(void* a)
{ /* no memory for a long message: the others are delivered, nobody is stuck */
	(void)a;
	start();
	int k = 1 + hx_choose(3, "which allocation");
	pthread_t t;
	pthread_create(&t, NULL, t_long, NULL);
	cx_fail_alloc(k, false);
	say(1, true);
	say(2, false);
	pthread_join(t, NULL);
	int n = delivered(1) + delivered(10);
	HX_CHECK(delivered(2) == 1 && n == 2 - cx_alloc_fired(), "delivery", "%d long messages are delivered, %d allocation(s) failed", n, cx_alloc_fired());
	cx_fail_alloc(0, false);
	console_equals_callbacks();
	stop();
}
/* xlog's callback feeds a file logger: the files hold what the console holds */
static file_logger_handle fl;
static bool p_idle(void* a) { (void)a; return cx_blocked(1); }
static void to_file(LogLevel l, void* m, size_t n, void* u)
{
	HX_CHECK(u == &fl && in_cb++ == 0, "callback-overlap", "two user callbacks run at the same time");
	(void)l;
	HX_CHECK(file_logger_log(fl, m, n) == 0, "refused", "the file logger refuses a message");
	in_cb--;
}
static char names[16][128];
static int nnames;
void vfs_hook(int kind, const char* path)
{
	if (kind == VFS_OPEN) cx_point("file system");
	if (kind == VFS_WRITE && *path)
	{
		for (int i = 0; i < nnames; i++) if (!strcmp(names[i], path)) return;
		if (nnames < 16) snprintf(names[nnames++], 128, "%s", path);
	}
}
static void b_file(void* a)
{
	(void)a;
	nnames = 0;
	start();
	static file_logger_cfg cfg;
	memset(&cfg, 0, sizeof cfg);
	strcpy(cfg.log_folder_path, "logs"), strcpy(cfg.log_file_name_prefix, "p_");
	cfg.log_queue_size = 8, cfg.one_piece_file_max_len = hx_choose(2, "pieces") ? 64 : 0;
	cx_opt.time_step_us = 2500;
	fl = file_logger_init(&cfg);
	HX_CHECK(fl, "init", "file_logger_init fails");
	LG[0] = LG[1] = hx_choose(2, "long");
	xlog_set_user_callback(to_file, &fl);
	pthread_t t;
	pthread_create(&t, NULL, t_say, (void*)1);
	t_say((void*)0);
	pthread_join(t, NULL);
	xlog_set_user_callback(NULL, NULL);
	cx_until(p_idle, NULL, "main waits until the file logger is idle");
	file_logger_deinit(&fl);
	size_t at = 0;
	for (int i = 0; i < nnames; i++)
	{
		size_t k;
		const char* d = vfs_get(names[i], &k);
		HX_CHECK(d && ncon - at >= k && !memcmp(con + at, d, k), "files", "the log files differ from what the console shows");
		at += k;
	}
	HX_CHECK(at == ncon, "files", "the log files hold %zu bytes, the console shows %zu", at, ncon);
	uint64_t h = hx_hash((uint64_t)nnames, con, ncon);
	hx_outcome(h), hx_state(h);
	stop();
}
#define S(n) static void s_##n(void) { run(b_##n); }
S(lines) S(callback) S(settings) S(oom) S(file)
const hx_scn_t hx_scenarios[] = {
	{ "lines", s_lines, 2, 3, "2 (3) threads log two messages each, short and long, to console and callback" },
	{ "callback", s_callback, 3, 4, "a callback is replaced, removed or switched off while another thread logs" },
	{ "settings", s_settings, 3, 4, "level, format, default tag, level raising change while another thread logs" },
	{ "oom", s_oom, 3, 4, "one of the allocations for long messages fails" },
	{ "file", s_file, 2, 3, "two threads log through xlog into a file logger" },
};
const int hx_n_scenarios = 5;
