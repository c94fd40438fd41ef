/* L02: what xlog delivers for one call.  L04: slog, and sending stdout to a file and back.
 * stdout is a model: what is printed, whether it is open, where it goes. */
#include "seq.h"
#include "scale.h"
#define LOG_TAG tag_of_harness
static const char* tag_of_harness;
int xl_printf(const char* fmt, ...);
#define _PRINTF_FUNC xl_printf
#if PART == 4
#include "log/slog.h"
void xlog_stdout2file(char*);
void xlog_back2stdout(void);
int xlog_global_init(void);
int xlog_global_cleanup(void);
void xlog_set_target(int);
void xlog_set_format(int);
typedef enum { LOG_FLUSH_MODE_AUTO = 0, LOG_FLUSH_MODE_EVERY } xl_flush_t;
void xlog_set_flush_mode(xl_flush_t);
void __xlog_internal_print(LogLevel level, const char* tag, const char* func_name, int file_line, const char* fmt, ...);
#else
#include "log/xlog.h"
#include "log/slog.h"
#undef LOGV
#endif
#include "lcu.h"
#include <pthread.h>
#include <stdarg.h>
#include <errno.h>
#include <wchar.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* ---- the modelled world ------------------------------------------------- */
#define CAP 300000
typedef struct { char d[CAP]; size_t n; } log_t;
static log_t F[4];                   /* 0: the console, 1..3: files */
static int so_open, so_to, so_again, held, locks;
static size_t pending;               /* bytes printed and not yet flushed */
static struct timeval now;
static int cur_tid, bad_path;        /* bad_path: opening "no/..." fails */
static void emit(const char* s, size_t n)
{
	if (!so_open) hx_fail("stdout-closed", "stdout is used after it was closed");
	if (F[so_to].n + n > CAP) hx_fail("too-much", "endless output");
	memcpy(F[so_to].d + F[so_to].n, s, n);
	F[so_to].n += n, pending += n;
}
int xl_vprintf(const char* fmt, va_list ap)
{
	static char b[CAP];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n > 0) emit(b, (size_t)n);
	return n;
}
int xl_printf(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = xl_vprintf(fmt, ap);
	va_end(ap);
	return r;
}
int xl_puts(const char* s) { emit(s, strlen(s)); emit("\n", 1); return 1; }
int xl_putchar(int c) { char x = (char)c; emit(&x, 1); return c; }
int xl_vfprintf(FILE* f, const char* fmt, va_list ap) { if (f == stderr) return vsnprintf(NULL, 0, fmt, ap); if (f != stdout) hx_fail("stream", "an unknown stream is written"); return xl_vprintf(fmt, ap); }
int xl_fprintf(FILE* f, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = xl_vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
int xl_fputs(const char* s, FILE* f) { if (f == stdout) emit(s, strlen(s)); return 1; }
int xl_fputc(int c, FILE* f) { if (f == stdout) xl_putchar(c); return c; }
int xl_putc(int c, FILE* f) { return xl_fputc(c, f); }
size_t xl_fwrite(const void* p, size_t a, size_t b, FILE* f) { if (f == stdout) emit(p, a * b); return b; }
int xl_fflush(FILE* f)
{
	if (f == NULL || f == stdout)
	{
		if (f && !so_open) hx_fail("stdout-closed", "stdout is flushed after it was closed");
		pending = 0;
	}
	else if (f != stderr) hx_fail("stream", "an unknown stream is flushed");
	return 0;
}
static char other_file[4];
static int others;
int xl_fclose(FILE* f)
{
	if (f == (FILE*)(void*)other_file && others) { others--; return 0; }
	if (f != stdout) hx_fail("stream", "an unknown stream is closed");
	if (!so_open) hx_fail("stdout-closed", "stdout is closed twice");
	pending = 0, so_open = 0;
	return 0;
}
FILE* xl_freopen(const char* path, const char* mode, FILE* f)
{
	if (f != stdout) hx_fail("stream", "an unknown stream is reopened");
	if (!so_open) hx_fail("stdout-reopened", "stdout is given to freopen after it was closed");
	so_again++;
	HX_CHECK(path && (mode[0] == 'w' || mode[0] == 'a'), "mode", "stdout is reopened with mode %s", mode);
	pending = 0;
	if (!strcmp(path, "/dev/tty")) { so_to = 0; return stdout; }
	if (!strncmp(path, "no/", 3)) { so_open = 0; errno = ENOENT; return NULL; }
	int i = path[0] - 'A' + 1;
	if (i < 1 || i > 3) hx_fail("path", "stdout is reopened as %s", path);
	if (mode[0] == 'w') F[i].n = 0;
	so_to = i;
	return stdout;
}
FILE* xl_fopen(const char* path, const char* mode)
{
	if (!strncmp(path, "no/", 3)) { errno = ENOENT; return NULL; }
	int i = path[0] - 'A' + 1;
	if (i < 1 || i > 3) hx_fail("path", "%s is opened", path);
	if (mode[0] == 'w') F[i].n = 0;
	others++;
	return (FILE*)(void*)other_file;
}
int xl_mutex_lock(pthread_mutex_t* m) { (void)m; if (held) hx_fail("deadlock", "a lock is taken while it is held"); held = 1; locks++; return 0; }
int xl_mutex_unlock(pthread_mutex_t* m) { (void)m; if (!held) hx_fail("unlock", "a lock is released that is not held"); held = 0; return 0; }
int xl_gettimeofday(struct timeval* tv, void* z) { (void)z; *tv = now; return 0; }
int xl_clock_gettime(clockid_t c, struct timespec* ts) { (void)c; ts->tv_sec = now.tv_sec, ts->tv_nsec = now.tv_usec * 1000; return 0; }
time_t xl_time(time_t* t) { if (t) *t = now.tv_sec; return now.tv_sec; }
pid_t xl_gettid(void) { return cur_tid; }
long xl_syscall(long n, ...) { (void)n; return cur_tid; }

static void world(void)
{
	for (int i = 0; i < 4; i++) F[i].n = 0;
	so_open = 1, so_to = 0, others = 0, held = 0, pending = 0, bad_path = 0;
	cur_tid = 4711;
	now.tv_sec = 1700000000, now.tv_usec = 123456;
}

#if PART == 2
/* ---- the reference formatter ---------------------------------------------- */
static struct { int min, up, target, format, flush, tz; char tag[64]; bool cb; void* ud; } R;
typedef struct { int level; char* msg; size_t n; void* ud; } got_t;
static got_t G[8];
static int ngot;
static void on_log(LogLevel level, void* msg, size_t n, void* ud)
{
	HX_CHECK(held, "callback-unlocked", "the user callback runs without the lock");
	HX_CHECK(ngot < 8, "too-many", "too many callbacks");
	static char pool[8][CAP];
	HX_CHECK(n <= CAP, "callback-size", "the callback gets %zu bytes", n);
	char* b = pool[ngot];
	memcpy(b, msg, n);
	G[ngot++] = (got_t){ (int)level, b, n, ud };
}
static void forget(void) { ngot = 0; F[0].n = 0; }
static size_t ref_header(char* o, int level, const char* tag)
{
	size_t n = 0;
	if (R.format & 2)
	{
		time_t t = now.tv_sec + R.tz * 3600;
		struct tm tm;
		gmtime_r(&t, &tm);
		n += (size_t)sprintf(o + n, "%02d-%02d %02d:%02d:%02d.%03d", tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)(now.tv_usec / 1000));
	}
	if (R.format & 4) n += (size_t)sprintf(o + n, " %c/%-8.22s", "0VDIWE?"[level], tag ? tag : R.tag);
	if (R.format & 8) n += (size_t)sprintf(o + n, "(%5d)", cur_tid);
	if (n) n += (size_t)sprintf(o + n, ": ");
	return n;
}
/* every property of one call; returns whether it was delivered */
static void judge(int level, const char* tag, const char* func, int line, const char* msg, size_t mlen, bool dropped)
{
	static char want[CAP];
	bool on = R.target && R.min && level < 6 && level >= R.min && !dropped;
	bool con = on && (R.target & 4), usr = on && (R.target & 8) && R.cb;
	int lv = R.up && level < R.up ? R.up : level;
	HX_CHECK(!held, "lock-left", "the lock is held after the call");
	HX_CHECK(ngot == usr, "callback-count", "the user callback ran %d time(s) instead of %d", ngot, usr);
	if (!con) HX_CHECK(F[0].n == 0, "console-extra", "%zu bytes are printed although nothing should be", F[0].n);
	if (!con && !usr) return;
	size_t h = ref_header(want, lv, tag), f = 0;
	bool fn = func && line > 0;
	if (fn) f = (size_t)sprintf(want + h, "(%s:%d) ", func, line);
	memcpy(want + h + f, msg, mlen);
	size_t n = h + f + mlen;
	if (usr)
	{
		got_t* g = &G[0];
		HX_CHECK(g->level == lv, "callback-level", "the callback gets level %d instead of %d", g->level, lv);
		HX_CHECK(g->ud == R.ud, "callback-user-data", "the callback gets foreign user data");
		HX_CHECK(g->n && g->msg[g->n - 1] == 0, "callback-nul", "the message for the callback is not terminated");
		if (!fn || h + f <= 320)
			HX_CHECK(g->n == n + 1 && !memcmp(g->msg, want, n), "callback-text", "the callback gets\n  %.200s (%zu)\ninstead of\n  %.200s (%zu)", g->msg, g->n, want, n + 1);
		else
		{ /* a very long function name may be shortened */
			HX_CHECK(g->n <= n + 1 && g->n >= h + mlen + 1, "callback-text", "the callback gets %zu bytes", g->n);
			HX_CHECK(!memcmp(g->msg, want, h) && !memcmp(g->msg + g->n - 1 - mlen, msg, mlen), "callback-text", "header or message is damaged next to a long function name");
			size_t mid = g->n - 1 - h - mlen;
			if (mid) HX_CHECK(mid > 2 && g->msg[h] == '(' && g->msg[h + 1] == func[0] && g->msg[h + mid - 1] == ' ', "callback-text", "the place of the function name is damaged");
		}
	}
	if (con)
	{
		if (usr) { HX_CHECK(F[0].n == G[0].n && !memcmp(F[0].d, G[0].msg, G[0].n - 1) && F[0].d[F[0].n - 1] == '\n', "console-text", "console and callback differ:\n  %.*s", (int)F[0].n, F[0].d); }
		else if (!fn || h + f <= 320)
			HX_CHECK(F[0].n == n + 1 && !memcmp(F[0].d, want, n) && F[0].d[n] == '\n', "console-text", "printed is\n  %.*s (%zu)\ninstead of\n  %.*s (%zu)", (int)F[0].n, F[0].d, F[0].n, (int)n, want, n);
		if (R.flush) HX_CHECK(pending == 0, "not-flushed", "%zu bytes are not flushed", pending);
	}
}
static void begin(void)
{
	world();
	ngot = 0;
	memset(&R, 0, sizeof R);
	HX_CHECK(xlog_global_init() == 0, "init", "init fails");
	HX_CHECK(xlog_global_init() == 1, "init-twice", "a second init reports %d", 0);
	xlog_auto_level_up(LOG_LEVEL_OFF);
	xlog_set_min_level(LOG_LEVEL_VERBOSE), R.min = 1;
	xlog_set_default_tag("XLog"), strcpy(R.tag, "XLog");
	xlog_set_timezone(8), R.tz = 8;
	xlog_set_user_callback(on_log, &R), R.cb = true, R.ud = &R;
	xlog_set_target(12), R.target = 12;
	xlog_set_format(6), R.format = 6;
	xlog_set_flush_mode(LOG_FLUSH_MODE_AUTO);
}
static void end(void)
{
	forget();
	HX_CHECK(!held, "lock-left", "the lock is held at the end");
	HX_CHECK(xlog_global_cleanup() == 0 && xlog_global_cleanup() == 1, "cleanup", "cleanup reports failure");
	sq_check_leaks("leak");
}
static void fill(char* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (char)('!' + (i * 7 + i / 90) % 90); b[n] = 0; for (size_t i = 0; i < n; i++) if (b[i] == '%') b[i] = '_'; }
static const char* const TAGS[] = { NULL, "", "t", "sevench", "eightchr", "ninechars", "twenty-two-characters!", "twenty-three-characters", "a tag that is much longer than the header can take" };
#define NTAGS 9
static void s_header(void)
{
	begin();
	static const int TIDS[] = { 4711, 1, 99999, 100000, 4194304, 10 }, LINES[] = { 1, 0, -1, 100, 2147483647 };
	static const char* const FN[] = { NULL, "", "f", "a_function_with_a_name_of_thirty", "main" };
	int format = hx_choose(17, "format"), target = 4 * (1 + hx_choose(3, "target"));
	const char* tag = TAGS[hx_choose(NTAGS, "tag")];
	const char* fn = FN[hx_choose(5, "function")];
	int line = LINES[fn ? hx_choose(5, "line") : 0];
	cur_tid = TIDS[format & 8 ? hx_choose(6, "tid") : 0];
	if (hx_tier) now.tv_usec = (int[]){ 0, 999, 999999 }[hx_choose(3, "microseconds")];
	xlog_set_format(format), R.format = format;
	xlog_set_target(target), R.target = target;
	int level = 1 + hx_choose(5, "level");
	char m[64];
	fill(m, (size_t)hx_choose(2, "text") * 20);
	__xlog_internal_print((LogLevel)level, tag, fn, line, "%s", m);
	judge(level, tag, fn, line, m, strlen(m), false);
	hx_state(hx_hash(1, F[0].d, F[0].n)); hx_outcome(hx_hash(2, F[0].d, F[0].n));
	end();
}
static void s_length(void)
{ /* every message length around the inner buffer's size; memory may be short */
	begin();
	static char m[4000], whole[4100];
	size_t n = (size_t)hx_choose(HX_T(1100, 3000), "length");
	int format = hx_choose(2, "format") ? 14 : 0, fn = hx_choose(3, "function"), how = hx_choose(3, "format string");
	xlog_set_format(format), R.format = format;
	bool oom = hx_choose(2, "no memory");
	const char* f = fn == 0 ? NULL : fn == 1 ? "fn" : "a_function_with_a_name_of_thirty";
	fill(m, n);
	size_t w = (size_t)(how == 0 ? sprintf(whole, "%s", m) : how == 1 ? sprintf(whole, "%d|%s|%lld|%c", -5, m, 1234567890123LL, 'z') : sprintf(whole, "%.2f %s", 2.5, m));
	for (int i = 0; i < 2; i++)
	{
		sq_fail_alloc(oom && i == 0 ? 1 : 0, true);
		int fired0 = 0;
		if (how == 0) __xlog_internal_print(LOG_LEVEL_INFO, "tag", f, 77, "%s", m);
		else if (how == 1) __xlog_internal_print(LOG_LEVEL_INFO, "tag", f, 77, "%d|%s|%lld|%c", -5, m, 1234567890123LL, 'z');
		else __xlog_internal_print(LOG_LEVEL_INFO, "tag", f, 77, "%.2f %s", 2.5, m);
		fired0 = sq_alloc_fired();
		bool dropped = i == 0 && oom && ngot == 0;
		if (dropped) HX_CHECK(fired0 && F[0].n == 0, "dropped", "a message of %zu bytes is dropped without a reason", w);
		sq_fail_alloc(0, false);
		judge(3, "tag", f, 77, whole, w, dropped);
		hx_state(hx_hash((uint64_t)dropped, F[0].d, F[0].n)); hx_outcome(hx_hash(2, F[0].d, F[0].n));
		forget(), pending = 0;
	}
	end();
}
static void s_scale(void)
{	/* very long messages */
	begin();
	static char m[140000];
	size_t n = scale_n[hx_choose(NSCALE, "length")] - (size_t)hx_choose(2, "less a header") * 40;
	int format = hx_choose(2, "format") ? 14 : 0;
	const char* f = hx_choose(2, "function") ? "fn" : NULL;
	xlog_set_format(format), R.format = format;
	fill(m, n);
	for (int i = 0; i < 2; i++)
	{
		__xlog_internal_print(LOG_LEVEL_INFO, "tag", f, 77, "%s", m);
		judge(3, "tag", f, 77, m, n, false);
		forget(), pending = 0;
		m[n / 2] = '@';
	}
	hx_state(hx_mix(n, (uint64_t)format)); hx_outcome(n), hx_trans(2);
	end();
}
static void s_function(void)
{ /* every length of the function name */
	begin();
	static char f[900], m[700];
	size_t n = (size_t)hx_choose(HX_T(620, 800), "length of the function name");
	int format = hx_choose(2, "format") ? 14 : 0;
	const char* tag = hx_choose(2, "tag") ? "twenty-two-characters!" : NULL;
	xlog_set_format(format), R.format = format;
	for (size_t i = 0; i < n; i++) f[i] = (char)('a' + i % 26);
	f[n] = 0;
	fill(m, (size_t[]){ 0, 5, 300, 600 }[hx_choose(4, "message")]);
	int line = hx_choose(2, "line") ? 2147483647 : 9;
	__xlog_internal_print(LOG_LEVEL_WARN, tag, f, line, "%s", m);
	judge(4, tag, f, line, m, strlen(m), false);
	hx_state(hx_hash(1, F[0].d, F[0].n)); hx_outcome(hx_hash(2, F[0].d, F[0].n));
	end();
}
static void s_filter(void)
{ /* levels, automatic level raising and targets */
	begin();
	int a = hx_choose(6, "level before"), b = hx_choose(9, "level asked for") - 1, up = hx_choose(HX_T(4, 8), "raise to");
	if (!hx_tier) up = (int[]){ 0, 1, 3, 5 }[up];
	xlog_set_min_level((LogLevel)a), R.min = a;
	xlog_set_min_level((LogLevel)b);
	if (b >= 0 && b <= 5) R.min = b;
	HX_CHECK((int)xlog_get_min_level() == R.min, "min-level", "the level is %d instead of %d", (int)xlog_get_min_level(), R.min);
	if (up < 7) xlog_auto_level_up((LogLevel)up), R.up = up;
	else xlog_auto_level_up((LogLevel)-1);
	int t = hx_choose(18, "target") - 1;
	if (t == 16) t = 0x7fffffff;
	xlog_set_target(t);
	if (t >= 0) R.target = t;
	HX_CHECK(xlog_get_target() == R.target, "target", "the target is %d instead of %d", xlog_get_target(), R.target);
	if (hx_choose(2, "callback")) xlog_set_user_callback(NULL, NULL), R.cb = false;
	int level = hx_choose(9, "level") - 1;
	__xlog_internal_print((LogLevel)level, "tag", NULL, 0, "%s", "text");
	judge(level, "tag", NULL, 0, "text", 4, false);
	hx_state(hx_hash((uint64_t)ngot, F[0].d, F[0].n)); hx_outcome(hx_hash(2, F[0].d, F[0].n));
	forget();
	__xlog_internal_hex_print((LogLevel)level, "tag", "\x01\xfe", 2);
	judge(level, "tag", NULL, 0, " 01 fe", 6, false);
	end();
}
static void s_hex(void)
{
	begin();
	static char raw[800], w[3000];
	size_t n = (size_t)hx_choose(HX_T(200, 700), "bytes");
	for (size_t i = 0; i < n; i++) raw[i] = (char)(i * 31 + 200);
	char* copy = sq_malloc(n + 1);
	memcpy(copy, raw, n);
	int format = hx_choose(2, "format") ? 14 : 0;
	xlog_set_format(format), R.format = format;
	tag_of_harness = hx_choose(2, "tag") ? NULL : "tag";
	int level = 1 + hx_choose(5, "level");
	switch (level)
	{
	case 1: __xlog_internal_hex_print(LOG_LEVEL_VERBOSE, tag_of_harness, copy, n); break;
	default: __xlog_internal_hex_print((LogLevel)level, tag_of_harness, copy, n); break;
	}
	w[0] = 0;
	for (size_t i = 0; i < n; i++) sprintf(w + 3 * i, " %02x", (unsigned char)raw[i]);
	if (n <= 160) judge(level, tag_of_harness, NULL, 0, w, 3 * n, false);
	else
	{ /* may be cut: a header, perhaps a remark, then the first bytes */
		char h[200];
		size_t hl = ref_header(h, level, tag_of_harness);
		HX_CHECK(ngot == 1 && G[0].n > hl && !memcmp(G[0].msg, h, hl), "hex-header", "the header is damaged");
		char* s = strstr(G[0].msg + hl, " c8 e7 06");
		HX_CHECK(s && strlen(s) >= 300 && !strncmp(s, w, strlen(s)), "hex-text", "the bytes are damaged: %s", G[0].msg);
	}
	hx_state(hx_hash(1, F[0].d, F[0].n)); hx_outcome(hx_hash(2, F[0].d, F[0].n));
	sq_free(copy);
	end();
}
static void on_other(LogLevel level, void* msg, size_t n, void* ud) { on_log(level, msg, n, ud); }
static void s_sequence(void)
{ /* sequences of settings, valid and not, and messages */
	begin();
	static char longm[900];
	fill(longm, 800);
	int n = HX_T(3, 4);
	for (int i = 0; i < n; i++)
	{
		int op = hx_choose(21, "operation"), v;
		switch (op)
		{
		case 0: case 1: case 2: v = (int[]){ 3, 0, 6 }[op]; xlog_set_min_level((LogLevel)v); if (v >= 0 && v <= 5) R.min = v; break;
		case 3: case 4: v = op == 3 ? 4 : 0; xlog_auto_level_up((LogLevel)v); R.up = v; break;
		case 5: case 6: case 7: { const char* t = (const char*[]){ "new", "a default tag that is far too long", "" }[op - 5]; char b[64]; strcpy(b, t); xlog_set_default_tag(b); memset(b, '#', 63); snprintf(R.tag, sizeof R.tag, "%.23s", t); break; }
		case 8: xlog_set_default_tag(NULL); break;
		case 9: case 10: case 11: v = (int[]){ -12, 12, 13 }[op - 9]; xlog_set_timezone(v); if (v <= 12) R.tz = v; break;
		case 12: xlog_set_user_callback(on_other, &now), R.cb = true, R.ud = &now; break;
		case 13: xlog_set_user_callback(NULL, &now), R.cb = false; break;
		case 14: case 15: v = op == 14 ? 8 : -5; xlog_set_target(v); if (v >= 0) R.target = v; break;
		case 16: case 17: case 18: v = (int[]){ 0, 12, -1 }[op - 16]; xlog_set_format(v); if (v >= 0) R.format = v; break;
		case 19: xlog_set_flush_mode(LOG_FLUSH_MODE_EVERY), R.flush = 1; break;
		case 20: now.tv_sec += 1, now.tv_usec = 7000; break;
		}
		HX_CHECK((int)xlog_get_min_level() == R.min && xlog_get_target() == R.target && xlog_get_format() == R.format && (int)xlog_get_flush_mode() == R.flush, "settings", "the settings read back as %d %d %d %d instead of %d %d %d %d", (int)xlog_get_min_level(), xlog_get_target(), xlog_get_format(), (int)xlog_get_flush_mode(), R.min, R.target, R.format, R.flush);
		bool lg = hx_choose(2, "long");
		int level = hx_choose(2, "level") ? 2 : 5;
		if (hx_choose(2, "unprintable first"))
		{ /* a format the C library refuses: nothing is delivered, nothing is stuck */
			__xlog_internal_print(LOG_LEVEL_ERROR, NULL, NULL, 0, "%ls", L"\x4e2d");
			HX_CHECK(ngot == 0 && F[0].n == 0 && !held, "unprintable", "an unprintable message leaves traces");
		}
		__xlog_internal_print((LogLevel)level, NULL, lg ? "fn" : NULL, 12, "%s", lg ? longm : "short");
		judge(level, NULL, lg ? "fn" : NULL, 12, lg ? longm : "short", lg ? 800 : 5, false);
		hx_state(hx_hash(hx_hash((uint64_t)ngot, &R, sizeof R), F[0].d, F[0].n)); hx_outcome(hx_hash(2, F[0].d, F[0].n));
		forget();
	}
	end();
}
const hx_scn_t hx_scenarios[] = {
	{ "header", s_header, 0, 0, "every format, target, tag length, thread id, function, line, level" },
	{ "length", s_length, 0, 0, "every message length up to 1100 (3000), with and without memory, three format strings" },
	{ "scale", s_scale, 0, 0, "messages of up to 131073 bytes" },
	{ "function", s_function, 0, 0, "every length of the function name up to 620 (800)" },
	{ "filter", s_filter, 0, 0, "every pair of minimum levels, level raising, target, message level; text and hex" },
	{ "hex", s_hex, 0, 0, "hex output of every length up to 200 (700) bytes" },
	{ "sequence", s_sequence, 0, 0, "every sequence of 3 (4) settings with a message after each" },
};
const int hx_n_scenarios = 7;
#elif PART == 6
/* ---- L06: the macros of every front end ----------------------------------- */
#include "l_front.h"
const char* front_func;
int front_line, front_else;
static int evals;
int front_arg(void) { evals++; return 5; }
#if _LCU_LOGGER_UNSUPPORT_STDOUT_REDIRECT
/* a build without redirection: its macros do nothing */
static const front_t* const FR[] = { NULL, &front10, &front11, &front12, &front13 };
static bool is_x(int f) { return f == 1 || f == 2; }
static bool is_s(int f) { return f > 2; }
static const int FX[] = { 1, 2 }, FS[] = { 3, 4 };
#define NF 4
#define NX 2
#define NS 2
#define REDIRECTS 0
#else
static const front_t* const FR[] = { NULL, &front1, &front2, &front3, &front4, &front5, &front6, &front7, &front8, &front9 };
static bool is_x(int f) { return f == 1 || f == 2 || f == 3 || f == 8; }
static bool is_s(int f) { return f == 4 || f == 5; }
static const int FX[] = { 1, 3, 8, 6, 7 }, FS[] = { 4, 5, 9 };
#define NF 9
#define NX 5
#define NS 3
#define REDIRECTS 1
#endif
static int xmin, smin, calls, call_level;
static void on_log(LogLevel level, void* msg, size_t n, void* ud) { (void)msg, (void)n, (void)ud; calls++, call_level = (int)level; }
static const char* own_tag(int f) { return !REDIRECTS ? "own" : f == 2 ? NULL : f == 3 ? "<own>" : "own"; }
/* one message through front end f; what has to be at the place stdout goes to */
static void say(int f, int how, int level, const char* tag, const char* text, const char* stamp)
{
	static char want[4000];
	size_t was = F[so_to].n, k = 0;
	calls = evals = 0;
	FR[f]->say(how, level, tag, text, strlen(text));
	HX_CHECK(front_else == 0, "statement", "a message is no single statement: the else of another if is taken");
	HX_CHECK(!held, "lock-left", "the lock is held after a message");
	bool on = is_x(f) ? xmin && level >= xmin : is_s(f) ? smin && level >= smin : false;
	HX_CHECK(evals <= 1 && (!on || (how > 7 || how % 2) || evals == 1), "evaluated", "an argument is evaluated %d times", evals);
	if (!on) { HX_CHECK(F[so_to].n == was && calls == 0, "extra", "front end %d prints a message that it should not: %.*s", f, (int)(F[so_to].n - was), F[so_to].d + was); return; }
	const char* t = how < 8 ? ((how / 2) % 2 ? tag : own_tag(f)) : how == 9 ? tag : own_tag(f);
	if (is_x(f)) k += (size_t)sprintf(want, "%s %c/%-8.22s: ", stamp, "0VDIWE"[level], t ? t : "XLog");
	else k += (size_t)sprintf(want, "[%c/%s]%s", "0VDIWE"[level], t, how >= 4 && how < 8 ? "" : " ");
	if (how >= 4 && how < 8) k += (size_t)sprintf(want + k, "(%s:%d) ", front_func, front_line);
	if (how >= 8) for (const char* p = text; *p; p++) k += (size_t)sprintf(want + k, " %02x", (unsigned char)*p);
	else if (how % 2) k += (size_t)sprintf(want + k, "bare");
	else k += (size_t)sprintf(want + k, "%s|5", text);
	k += (size_t)sprintf(want + k, "\n");
	HX_CHECK(F[so_to].n - was == k && !memcmp(F[so_to].d + was, want, k), "text", "front end %d prints\n  %.*s\ninstead of\n  %s", f, (int)(F[so_to].n - was), F[so_to].d + was, want);
	if (is_x(f) && !*stamp) HX_CHECK(calls == 1 && call_level == level, "level", "the callback gets level %d instead of %d", call_level, level);
	else HX_CHECK(calls == 0, "callback", "the callback of xlog gets a message of slog");
	hx_state(hx_hash((uint64_t)f, want, k)); hx_outcome(hx_hash(2, want, k));
}
static void begin(void)
{
	world();
	front_else = 0;
	slog_set_min_level(LOG_LEVEL_VERBOSE), smin = 1;
	xlog_set_min_level(LOG_LEVEL_VERBOSE), xmin = 1;
	xlog_set_user_callback(on_log, NULL), xlog_set_target(12), xlog_set_format(4);
	F[0].n = 0;
}
static void set(int f, int v)
{
	FR[f]->set(v);
	bool ok = v >= 0 && v <= 5;
	if (ok && (is_x(f) || f == 7)) xmin = v;
	if (ok && is_s(f)) smin = v;
	HX_CHECK((int)xlog_get_min_level() == xmin && (int)slog_get_min_level() == smin, "min-level", "the levels of xlog and slog are %d and %d instead of %d and %d", (int)xlog_get_min_level(), (int)slog_get_min_level(), xmin, smin);
	int g = FR[f]->get();
	HX_CHECK(g == (f == 6 || f == 9 ? 0 : is_s(f) ? smin : xmin), "min-level", "front end %d reads level %d back", f, g);
}
static void s_macros(void)
{
	begin();
	int f = 1 + hx_choose(NF, "front end");
	FR[f]->init();
	set(f, hx_choose(9, "level asked for") - 1);
	F[0].n = 0;
	static const char* const TG[] = { "t", "a tag of its own", NULL };
	int how = hx_choose(10, "form"), level = 1 + hx_choose(5, "level");
	const char* tag = TG[hx_choose(is_s(f) ? 2 : 3, "tag")];
	say(f, how, level, tag, hx_choose(2, "text") ? "text \xff with more" : "", "");
	say(f, how, level, tag, "again", "");
	FR[f]->cleanup();
	sq_check_leaks("leak");
}
static void s_defaults(void)
{ /* a program that sets nothing and calls no init */
	world();
	front_else = 0, xmin = smin = 1;
	int f = 1 + hx_choose(NF, "front end");
	bool init = hx_choose(2, "init");
	if (init) FR[f]->init();
	now.tv_usec = 42000;
	for (int i = 0; i < 2; i++)
	{
		int how = hx_choose(10, "form"), level = 1 + hx_choose(5, "level");
		say(f, how, level, "tag", "text", is_x(f) ? "11-15 06:13:20.042" : "");
	}
	if (init) FR[f]->cleanup();
	sq_check_leaks("leak");
}
static void s_control(void)
{ /* sequences of everything the front ends offer, several front ends in one program */
	begin();
	bool x = hx_choose(2, "redirected by");
	bool red = false;
	int at = 0, n = HX_T(4, 5);
	for (int i = 0; i < n; i++)
	{
		int f = x ? FX[hx_choose(NX, "front end")] : FS[hx_choose(NS, "front end")], op = hx_choose(7, "operation");
		bool off = !REDIRECTS || (!is_x(f) && !is_s(f));
		if (op == 0) { char p[8] = "A"; p[0] = (char)('A' + i % 2); FR[f]->tofile(p); memset(p, '#', 7); if (!off) at = 1 + i % 2, red = true; }
		else if (op == 1) FR[f]->tofile(NULL);
		else if (op == 2) { FR[f]->back(); if (!off && red) at = 0, red = false; }
		else if (op == 3) set(f, 4);
		else if (op == 4) set(f, 2);
		else if (op == 5) FR[f]->init();
		else FR[f]->cleanup();
		HX_CHECK(front_else == 0, "statement", "a redirection is no single statement");
		HX_CHECK(so_open && so_to == at, "target", "stdout goes to %d instead of %d (0: console)", so_open ? so_to : -1, at);
		say(f, 2 * (i % 4), 3, "t", "text", "");
		say(x ? FS[0] : FX[0], 0, 4, "t", "other", "");
	}
	FR[x ? FX[0] : FS[REDIRECTS]]->back();
	HX_CHECK(so_open && so_to == 0 && others == 0, "back", "stdout is not back at the console");
	xlog_global_cleanup();
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "macros", s_macros, 0, 0, "every front end, minimum level, form of message, level and tag" },
	{ "defaults", s_defaults, 0, 0, "every front end, form and level in a program that sets nothing, two messages" },
	{ "control", s_control, 0, 0, "every sequence of 4 (5) of the control macros over the front ends of one logger" },
};
const int hx_n_scenarios = 3;
#else
/* ---- L04 ------------------------------------------------------------------ */
static char* line_of(const char* f, ...)
{
	static char b[2000];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
static void slog_one(int how, int level, const char* text)
{
	F[0].n = 0;
	int line = 0;
	if (how == 0) switch (level) { case 1: SLOGV("tag", "%s|%d", text, 5); break; case 2: SLOGD("tag", "%s|%d", text, 5); break; case 3: SLOGI("tag", "%s|%d", text, 5); break; case 4: SLOGW("tag", "%s|%d", text, 5); break; default: SLOGE("tag", "%s|%d", text, 5); }
	else if (how == 1) { line = __LINE__; switch (level) { case 1: SLOGV_TRACE("tag", "%s|%d", text, 5); break; case 2: SLOGD_TRACE("tag", "%s|%d", text, 5); break; case 3: SLOGI_TRACE("tag", "%s|%d", text, 5); break; case 4: SLOGW_TRACE("tag", "%s|%d", text, 5); break; default: SLOGE_TRACE("tag", "%s|%d", text, 5); } }
	else if (how == 2) { tag_of_harness = "own"; switch (level) { case 1: LOGV("%s", text); break; case 2: LOGD("%s", text); break; case 3: LOGI("%s", text); break; case 4: LOGW("%s", text); break; default: LOGE("%s", text); } }
	else switch (level) { case 1: SLOGV_HEX("tag", text, strlen(text)); break; case 2: SLOGD_HEX("tag", text, strlen(text)); break; case 3: SLOGI_HEX("tag", text, strlen(text)); break; case 4: SLOGW_HEX("tag", text, strlen(text)); break; default: SLOGE_HEX("tag", text, strlen(text)); }
	int min = (int)slog_get_min_level();
	bool on = min && min <= level;
	char want[2000];
	char c = "0VDIWE"[level];
	if (how == 0) strcpy(want, line_of("[%c/tag] %s|5\n", c, text));
	else if (how == 1) { snprintf(want, sizeof want, "[%c/tag](slog_one:%d) %s|5\n", c, line, text); }
	else if (how == 2) strcpy(want, line_of("[%c/own] %s\n", c, text));
	else
	{
		size_t k = (size_t)sprintf(want, "[%c/tag] ", c);
		for (const char* p = text; *p; p++) k += (size_t)sprintf(want + k, " %02x", (unsigned char)*p);
		sprintf(want + k, "\n");
	}
	if (!on) HX_CHECK(F[0].n == 0, "below-level", "a message of level %d is printed although the level is %d", level, min);
	else HX_CHECK(F[0].n == strlen(want) && !memcmp(F[0].d, want, F[0].n), "text", "printed is\n  %.*s\ninstead of\n  %s", (int)F[0].n, F[0].d, want);
	hx_state(hx_hash((uint64_t)min, F[0].d, F[0].n)); hx_outcome(hx_hash(1, F[0].d, F[0].n));
}
static void s_slog(void)
{
	world();
	slog_set_min_level(LOG_LEVEL_VERBOSE);
	int cur = 1;
	for (int i = 0; i < 2; i++)
	{
		int v = hx_choose(9, "level") - 1;
		slog_set_min_level((LogLevel)v);
		if (v >= 0 && v <= 5) cur = v;
		HX_CHECK((int)slog_get_min_level() == cur, "min-level", "the level is %d instead of %d", (int)slog_get_min_level(), cur);
	}
	F[0].n = 0;
	for (int how = 0; how < 4; how++)
		for (int level = 1; level <= 5; level++)
		{
			slog_one(how, level, "");
			slog_one(how, level, "some text");
			slog_one(how, level, "\xff\x80 text of which the hexadecimal form is as long as it may be, eighty bytes !!");
		}
	slog_set_min_level(LOG_LEVEL_VERBOSE);
}
static void s_slog_hex(void)
{ /* hex of every length, never beyond the buffers */
	world();
	slog_set_min_level(LOG_LEVEL_VERBOSE);
	size_t n = (size_t)hx_choose(400, "bytes");
	char* raw = sq_malloc(n + 1);
	for (size_t i = 0; i < n; i++) raw[i] = (char)(i * 31 + 200);
	F[0].n = 0;
	__slog_internal_hex_print(LOG_LEVEL_WARN, "tag", raw, n);
	static char w[2000];
	size_t k = 0;
	for (size_t i = 0; i < n; i++) k += (size_t)sprintf(w + k, " %02x", (unsigned char)raw[i]);
	w[k] = 0;
	F[0].d[F[0].n] = 0;
	HX_CHECK(F[0].n > 8 && !memcmp(F[0].d, "[W/tag] ", 8) && F[0].d[F[0].n - 1] == '\n', "hex-text", "printed is %s", F[0].d);
	if (n <= 80) HX_CHECK(F[0].n == k + 9 && !memcmp(F[0].d + 8, w, k), "hex-text", "printed is %s", F[0].d);
	else
	{
		char* s = strstr(F[0].d, " c8 e7 06");
		HX_CHECK(s && strlen(s) > 150 && !strncmp(s, w, strlen(s) - 1), "hex-text", "printed is %s", F[0].d);
	}
	hx_state(hx_hash(1, F[0].d, F[0].n)); hx_outcome(hx_hash(1, F[0].d, F[0].n));
	sq_free(raw);
	sq_check_leaks("leak");
}
/* every sequence of redirections and prints */
static void redirect(bool x)
{
	world();
	void (*to)(char*) = x ? xlog_stdout2file : slog_stdout2file;
	void (*back)(void) = x ? xlog_back2stdout : slog_back2stdout;
	bool every = x && hx_choose(2, "flush mode");
	if (x) { xlog_global_init(); xlog_set_target(4); xlog_set_format(0); xlog_set_flush_mode(every ? LOG_FLUSH_MODE_EVERY : LOG_FLUSH_MODE_AUTO); }
	else slog_set_min_level(LOG_LEVEL_VERBOSE);
	static log_t W[4]; /* what each place should hold */
	for (int i = 0; i < 4; i++) W[i].n = 0;
	F[0].n = 0;
	int at = 0, n = HX_T(5, 6);
	bool red = false;
	for (int i = 0; i < n; i++)
	{
		int op = hx_choose(6, "operation");
		if (op < 2) { char p[8] = { (char)('A' + op), 0 }; to(p); memset(p, '#', 7); at = op + 1; W[at].n = 0, red = true; }
		else if (op == 2)
		{ /* cannot be opened: output goes on at the console or where it went before */
			to("no/such/folder");
			HX_CHECK(so_open, "failed-redirect", "after a redirection that failed nothing can be printed any more");
			HX_CHECK(so_to == 0 || so_to == at, "failed-redirect", "a redirection that failed changes the file");
			at = so_to;
		}
		else if (op == 3) { to(NULL); to(""); }
		else if (op == 4)
		{ /* without a redirection stdout (a pipe, say) stays what it is */
			int was = so_again;
			back();
			HX_CHECK(red || so_again == was, "back-of-nothing", "going back without a redirection takes stdout away");
			at = 0, red = false;
		}
		else
		{
			char line[32];
			int k = sprintf(line, "line %d\n", i);
			if (x) __xlog_internal_print(LOG_LEVEL_INFO, "t", NULL, 0, "line %d", i);
			else { k = sprintf(line, "[I/t] line %d\n", i); SLOGI("t", "line %d", i); }
			if (every) HX_CHECK(!pending, "not-flushed", "a line is not flushed although every one should be");
			memcpy(W[at].d + W[at].n, line, (size_t)k);
			W[at].n += (size_t)k;
		}
		HX_CHECK(so_open && so_to == at, "target", "stdout goes to %d instead of %d (0: console)", so_open ? so_to : -1, at);
		HX_CHECK(!held, "lock-left", "the lock is held");
	}
	for (int i = 0; i < 3; i++) HX_CHECK(F[i].n == W[i].n && !memcmp(F[i].d, W[i].d, W[i].n), "lines", "place %d (0: console) holds\n%.*s\ninstead of\n%.*s", i, (int)F[i].n, F[i].d, (int)W[i].n, W[i].d);
	hx_state(hx_mix(hx_hash(hx_hash(1, F[0].d, F[0].n), F[1].d, F[1].n), (uint64_t)at)); hx_outcome(hx_hash(hx_hash(1, F[0].d, F[0].n), F[1].d, F[1].n));
	back();
	HX_CHECK(others == 0, "file-left", "%d file(s) are left open", others);
	HX_CHECK(so_open && so_to == 0, "back", "stdout is not back at the console");
	if (x) xlog_global_cleanup();
	sq_check_leaks("leak");
}
static void s_redirect_slog(void) { redirect(false); }
static void s_redirect_xlog(void) { redirect(true); }
const hx_scn_t hx_scenarios[] = {
	{ "slog", s_slog, 0, 0, "every pair of level settings, every macro family, every level" },
	{ "slog-hex", s_slog_hex, 0, 0, "hex output of every length up to 400 bytes" },
	{ "redirect-slog", s_redirect_slog, 0, 0, "every sequence of 5 (6) redirections, failing ones included, and prints" },
	{ "redirect-xlog", s_redirect_xlog, 0, 0, "the same for xlog" },
};
const int hx_n_scenarios = 4;
#endif
