/* C01 conversions, C02 (sequential part) the cached time strings, C03 mail and web formats. */
#include "seq.h"
#define SCALE_ROOM
#include "scale.h"
#include <sys/time.h>
#include <time.h>
#include "time/time_util.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
#include "log/slog.h"
#include "lcu.h"
static struct timeval now;
time_t ct_time(time_t* p) { if (p) *p = now.tv_sec; return now.tv_sec; }
int ct_gettimeofday(struct timeval* tv, void* z) { (void)z; *tv = now; return 0; }
int ct_clock_gettime(clockid_t c, struct timespec* ts) { (void)c; ts->tv_sec = now.tv_sec, ts->tv_nsec = now.tv_usec * 1000; return 0; }

/* reference calendar, counted day by day */
static bool leap(long y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
typedef struct { long day, y; int m, d, w; } cal_t;      /* day since 1970-01-01, month 0.., weekday 0 = Sunday */
static void next_day(cal_t* c) { c->day++; c->w = (c->w + 1) % 7; if (++c->d > ML[c->m] + (c->m == 1 && leap(c->y))) { c->d = 1; if (++c->m == 12) c->m = 0, c->y++; } }
static cal_t cal_year(long y)
{
	cal_t c = { 0, 1970, 0, 1, 4 };
	while (c.y < y) { int n = 365 + leap(c.y); c.day += n, c.w = (c.w + n) % 7, c.y++; }
	while (c.y > y) { c.y--; int n = 365 + leap(c.y); c.day -= n, c.w = (c.w + 371 * 7 - n) % 7; }
	return c;
}
static const int TOD[] = { 0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399, 45296 };
static void dates(void)
{	/* one century per execution */
	long c = 1600 + 100 * hx_choose(HX_T(30, 84), "century");
	int tz = hx_choose(27, "zone") - 12;
	uint64_t h = 1, n = 0;
	for (cal_t k = cal_year(c); k.y < c + 100; next_day(&k))
		for (int i = 0; i < 10; i++)
		{
			time_t t = (time_t)k.day * 86400 + TOD[i] - tz * 3600;
			struct tm tm;
			int r = time_util_fast_second2date(&t, &tm, tz);
			if (r || tm.tm_year + 1900 != k.y || tm.tm_mon != k.m || tm.tm_mday != k.d || tm.tm_hour != TOD[i] / 3600 || tm.tm_min != TOD[i] / 60 % 60 || tm.tm_sec != TOD[i] % 60)
				hx_fail("date", "second %lld in zone %d is %ld-%d-%d %d o'clock and %d s, the conversion gives %d-%d-%d %d:%d:%d", (long long)t, tz, k.y, k.m + 1, k.d, TOD[i] / 3600, TOD[i] % 3600, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
			n++;
			h = hx_mix(h, (uint64_t)t);
		}
	hx_eval(n), hx_trans(n), hx_state(h), hx_outcome(h);
}
static void seconds(void)
{	/* every second of some days */
	static const long D[] = { -1, 0, 59, 789, 19782, 24855, 47540, 2932896 };      /* around 1970, a leap day, 2038, 2100, 9999 */
	long d = D[hx_choose(8, "day")];
	int tz = hx_choose(27, "zone") - 12;
	cal_t k = cal_year(1970 + d / 366 - (d < 0));
	while (k.day < d) next_day(&k);
	for (int s = 0; s < 86400; s++)
	{
		time_t t = (time_t)d * 86400 + s - tz * 3600;
		struct tm tm;
		time_util_fast_second2date(&t, &tm, tz);
		if (tm.tm_year + 1900 != k.y || tm.tm_mon != k.m || tm.tm_mday != k.d || tm.tm_hour != s / 3600 || tm.tm_min != s / 60 % 60 || tm.tm_sec != s % 60)
			hx_fail("date", "second %lld in zone %d is %ld-%d-%d + %d s, the conversion gives %d-%d-%d %d:%d:%d", (long long)t, tz, k.y, k.m + 1, k.d, s, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
	}
	hx_eval(86400), hx_trans(86400), hx_state(hx_mix((uint64_t)d, (uint64_t)tz)), hx_outcome(hx_mix((uint64_t)d, (uint64_t)tz));
}
static int want_str(char* b, long sec, long usec, int tz, int file)
{
	long l = sec + tz * 3600L, d = l / 86400, s = l % 86400;
	if (s < 0) s += 86400, d--;
	cal_t k = cal_year(1970 + d / 366 - (d < 0));
	while (k.day < d) next_day(&k);
	return file ? snprintf(b, 64, "%02d%02d%02ld%02ld%02ld.%03ld", k.m + 1, k.d, s / 3600, s / 60 % 60, s % 60, usec / 1000)
		: snprintf(b, 64, "%02d-%02d %02ld:%02ld:%02ld.%03ld", k.m + 1, k.d, s / 3600, s / 60 % 60, s % 60, usec / 1000);
}
static void one(int which, long sec, long usec, int tz)
{
	char w[64], *b = malloc(TIME_STR_SIZE);
	memset(b, 'z', TIME_STR_SIZE);
	struct timeval tv = { sec, usec };
	now = tv;
	int l = which == 0 ? time_util_get_time_str(&tv, b, tz) : which == 1 ? time_util_get_time_str_for_file_name(&tv, b, tz) : which == 2 ? time_util_get_time_str_current(b, tz) : time_util_get_time_str_for_file_name_current(b, tz);
	int wl = want_str(w, sec, usec, tz, which & 1);
	HX_CHECK(!memcmp(b, w, (size_t)wl + 1), "time-string", "%ld.%06ld in zone %d is '%s', the %s string is '%.23s'", sec, usec, tz, w, which & 1 ? "file name" : "log", b);
	HX_CHECK(l == wl, "time-string-length", "the length of '%s' is reported as %d", b, l);
	hx_outcome(hx_hash((uint64_t)which, b, (size_t)l));
	free(b);
}
static void strings(void)
{
	int which = hx_choose(2, "kind"), tz = hx_choose(27, "zone") - 12;
	static const long S[] = { 0, 86399, 951782399, 951782400, 1700000000, 1709164800, 2147483647, 2147483648, 4102444799, 4102444800 };
	long s = S[hx_choose(10, "time")];
	for (int ms = 0; ms < 1000; ms++) one(which, s, ms * 1000 + (ms * 7) % 1000, tz);
	one(which, s, 999999, tz), one(which, s, 0, tz), one(which, s, 999, tz);
	for (int m = 0; m < 1440; m++) one(which, s / 86400 * 86400 + m * 60 + m % 60, m * 13 % 1000 * 1000, tz);
	uint64_t ms;
	for (int u = 0; u < 1000000; u += 499)
	{
		now.tv_sec = s, now.tv_usec = u;
		time_util_current_ms(&ms);
		HX_CHECK(ms == (uint64_t)s * 1000 + (uint64_t)u / 1000, "current-ms", "%llu ms at %ld.%06d", (unsigned long long)ms, s, u);
	}
	hx_state(hx_mix(hx_mix((uint64_t)which, (uint64_t)tz), (uint64_t)s));
	hx_trans(2443);
}
static void zones(void)
{
	static const char* Z[] = { "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "CST-8", "NST3:30NDT,M3.2.0,M11.1.0", "<+0545>-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+14>-14", "<-12>12", "AEST-10AEDT,M10.1.0,M4.1.0/3" };
	int z = hx_choose(10, "zone"), year = hx_choose(HX_T(3, 6), "year");
	setenv("TZ", Z[z], 1);
	tzset();
	long t0 = 1577836800L + year * 31557600L;       /* from 2020 */
	for (long t = t0; t < t0 + 367L * 86400; t += 900)
	{
		struct tm lt;
		time_t tt = t + t % 7 * 113 % 900;
		localtime_r(&tt, &lt);
		now.tv_sec = tt, now.tv_usec = 5;
		int o = time_util_zone_offset_seconds_to_utc();
		if (o != lt.tm_gmtoff) hx_fail("zone-offset", "in zone %s at %ld the offset is %ld, %d is reported", Z[z], (long)tt, lt.tm_gmtoff, o);
		/* the strings are made for the zone asked for, whatever zone the process is in */
		if (t % 7200 == 0)
		{
			int q = (int)((t / 7200) % 27) - 12;
			struct tm g;
			one((int)((t / 7200) & 1), (long)tt, 123456, q);
			long l = (long)tt + q * 3600L;
			gmtime_r(&l, &lt);
			if (time_util_fast_second2date(&tt, &g, q) || g.tm_mday != lt.tm_mday || g.tm_hour != lt.tm_hour || g.tm_min != lt.tm_min || g.tm_sec != lt.tm_sec || g.tm_mon != lt.tm_mon || g.tm_year != lt.tm_year)
				hx_fail("date", "in a process in zone %s second %ld in zone %d is converted to day %d, %d:%d:%d", Z[z], (long)tt, q, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec);
		}
		hx_eval(1), hx_trans(1);
	}
	setenv("TZ", "UTC0", 1);
	tzset();
	hx_state(hx_mix((uint64_t)z, (uint64_t)year)), hx_outcome((uint64_t)z);
}
/* ---- C02: every sequence of requests, the cache never shows ---- */
static void cache(void)
{
	static const struct timeval T[] = { { 0, 0 }, { 0, 1500 }, { 1700000000, 0 }, { 1700000000, 999999 }, { 1700000001, 0 }, { 1699999999, 5000 }, { 1700006400, 77000 }, { 1, 0 } };
	bool init = hx_choose(2, "initialised");
	if (init) HX_CHECK(lcu_global_init() == 0, "init", "lcu_global_init fails");
	uint64_t h = init;
	for (int i = 0; i < HX_T(4, 5); i++)
	{
		int t = hx_choose(8, "time"), z = hx_choose(2, "zone") * 8, k = hx_choose(i < 2 ? 4 : 2, "kind");
		one(i < 2 ? (k ^ 2) : (k | 2), T[t].tv_sec, T[t].tv_usec, z);
		h = hx_mix(h, (uint64_t)(t * 100 + z * 4 + k));
		hx_state(h), hx_trans(1);
	}
	if (init) HX_CHECK(lcu_global_cleanup() == 0, "cleanup", "lcu_global_cleanup fails");
	sq_check_leaks("leak");
}
static void inits(void)
{	/* initialisation and cleanup in every order */
	int depth = 0, h = 0;
	for (int i = 0; i < HX_T(8, 10); i++)
	{
		int o = hx_choose(3, "operation");
		h = h * 3 + o;
		int r = 0;
		if (o == 0) r = lcu_global_init(), depth++;
		else if (o == 1) { r = lcu_global_cleanup(); if (depth) depth--; }
		else one(2, 1700000000 + i, i * 1000, i & 1);
		HX_CHECK(r == 0, "init-result", "operation %d gives %d", o, r);
		if (!depth) sq_check_leaks("leak");
		else HX_CHECK(sq_live() > 0, "init-gone", "a cleanup released what another user still needs");
	}
	while (depth--) lcu_global_cleanup();
	sq_check_leaks("leak");
	hx_state((uint64_t)h), hx_trans(8), hx_outcome((uint64_t)h);
}
/* ---- C03 ---- */
static const char *DN[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }, *MN[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static void rfc(void)
{
	long c = 1000 + 100 * hx_choose(90, "century");
	int f = hx_choose(3, "format");
	static const size_t SZ[] = { TIME_RFC1123_STR_SIZE, TIME_RFC2822_STR_SIZE, TIME_RFC2822_UTC_STR_SIZE };
	size_t n = SZ[f];
	int extra = hx_choose(2, "buffer"), st = HX_T(5, 1);
	char* b = malloc(n + (size_t)extra * 20);
	uint64_t h = 1;
	for (cal_t k = cal_year(c); k.y < c + 100; next_day(&k))
	{
		if (k.day % st && k.d > 1 && k.d < 28) continue;
		int s = TOD[(k.day % 10 + 10) % 10];
		time_t t = (time_t)k.day * 86400 + s;
		char w[64];
		snprintf(w, sizeof w, "%s, %02d %s %04ld %02d:%02d:%02d %s", DN[k.w], k.d, MN[k.m], k.y, s / 3600, s / 60 % 60, s % 60, f == 0 ? "GMT" : f == 1 ? "+0000" : "UTC");
		memset(b, 'z', n);
		int r = f == 0 ? time_rfc1123(&t, b, n + (size_t)extra * 20) : f == 1 ? time_rfc2822(&t, b, n + (size_t)extra * 20) : time_rfc2822_utc(&t, b, n + (size_t)extra * 20);
		if (r || strcmp(b, w)) hx_fail("rfc", "second %lld is '%s', the text is '%.40s' (%d)", (long long)t, w, b, r);
		hx_eval(1), hx_trans(1);
		h = hx_hash(h, b, strlen(b));
	}
	free(b);
	hx_state(h), hx_outcome(h);
}
/* the same instants in processes that run in other time zones */
static void rfczones(void)
{
	static const char* Z[] = { "UTC0", "CST-8", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "LHST-10:30LHDT-11,M10.1.0,M4.1.0" };
	int z = hx_choose(8, "zone"), f = hx_choose(3, "format");
	setenv("TZ", Z[z], 1);
	tzset();
	for (long t0 = 1609459200L; t0 < 1609459200L + 366L * 86400; t0 += HX_T(3 * 3600 + 59, 900 + 7))
	{
		time_t t = t0, k = t0;
		char b[TIME_RFC2822_STR_SIZE + 16], w[64], wd[4], mo[4];
		struct tm g;
		memset(b, 'z', sizeof b);
		int r = f == 0 ? time_rfc1123(&t, b, sizeof b) : f == 1 ? time_rfc2822(&t, b, sizeof b) : time_rfc2822_utc(&t, b, sizeof b);
		HX_CHECK(r == 0 && t == k, "rfc-zone", "fails, or changes the time given");
		gmtime_r(&k, &g);
		snprintf(w, sizeof w, "%s, %02d %s %04d %02d:%02d:%02d %s", DN[g.tm_wday], g.tm_mday, MN[g.tm_mon], g.tm_year + 1900, g.tm_hour, g.tm_min, g.tm_sec, f == 0 ? "GMT" : "UTC");
		if (f != 1) { if (strcmp(b, w)) hx_fail("rfc-zone", "in zone %s second %ld is '%s', the text is '%.40s'", Z[z], t0, w, b); }
		else
		{	/* any offset, but the right instant */
			int d, y, H, M, S, off, m = 0;
			char sg;
			struct tm x = { 0 };
			if (strlen(b) != 31 || sscanf(b, "%3s, %2d %3s %4d %2d:%2d:%2d %c%4d", wd, &d, mo, &y, &H, &M, &S, &sg, &off) != 9) hx_fail("rfc-zone", "in zone %s second %ld gives '%.40s'", Z[z], t0, b);
			while (m < 12 && strcmp(mo, MN[m])) m++;
			x.tm_mday = d, x.tm_mon = m, x.tm_year = y - 1900, x.tm_hour = H, x.tm_min = M, x.tm_sec = S;
			long local = (long)timegm(&x), o = (off / 100 * 60 + off % 100) * 60L * (sg == '-' ? -1 : 1);
			if (local - o != t0 || strcmp(wd, DN[((local / 86400) + 4) % 7])) hx_fail("rfc-zone", "in zone %s second %ld is given as '%.40s', which is second %ld", Z[z], t0, b, local - o);
		}
		hx_eval(1), hx_trans(1);
	}
	setenv("TZ", "UTC0", 1);
	tzset();
	hx_state((uint64_t)(z * 8 + f)), hx_outcome((uint64_t)f);
}
static void rfcwide(void)
{	/* buffers that are much larger than needed */
	char* b = room();
	int f = hx_choose(3, "format");
	static const char* const T[] = { "Fri, 11 Jun 2021 03:42:56 GMT", "Fri, 11 Jun 2021 03:42:56 +0000", "Fri, 11 Jun 2021 03:42:56 UTC" };
	for (int k = 0; k < NROOM; k++)
	{
		size_t n = room_n[k];
		time_t t = 1623382976;
		memset(b, 'z', 100);
		int r = f == 0 ? time_rfc1123(&t, b, n) : f == 1 ? time_rfc2822(&t, b, n) : time_rfc2822_utc(&t, b, n);
		HX_CHECK(r == 0 && !strcmp(b, T[f]), "rfc-room", "into %zu bytes gives %d, '%.40s'", n, r, b);
		hx_eval(1), hx_trans(1), hx_state((uint64_t)(f * 100 + k));
	}
	hx_outcome((uint64_t)f);
}
static void rfcsmall(void)
{
	int f = hx_choose(3, "format"), n = hx_choose(33, "size");
	static const int SZ[] = { TIME_RFC1123_STR_SIZE, TIME_RFC2822_STR_SIZE, TIME_RFC2822_UTC_STR_SIZE };
	char* b = malloc(n ? (size_t)n : 1);
	memset(b, 'z', (size_t)n);
	time_t t = 1623382976;
	int r = f == 0 ? time_rfc1123(&t, b, (size_t)n) : f == 1 ? time_rfc2822(&t, b, (size_t)n) : time_rfc2822_utc(&t, b, (size_t)n);
	if (n < SZ[f]) { HX_CHECK(r != 0, "rfc-small", "%d bytes are accepted", n); for (int i = 0; i < n; i++) HX_CHECK(b[i] == 'z', "rfc-small", "a refused buffer is written"); }
	else HX_CHECK(r == 0, "rfc-size", "%d bytes are refused", n);
	HX_CHECK((f == 0 ? time_rfc1123(&t, NULL, 100) : f == 1 ? time_rfc2822(&t, NULL, 100) : time_rfc2822_utc(&t, NULL, 100)) != 0, "rfc-null", "no buffer is accepted");
	free(b);
	hx_state((uint64_t)(f * 100 + n)), hx_trans(1), hx_outcome((uint64_t)r);
}
void sq_user_begin(void) { slog_set_min_level(LOG_LEVEL_OFF); setenv("TZ", "UTC0", 1); tzset(); }
const hx_scn_t hx_scenarios[] = {
#if PART == 1
	{ "seconds", seconds, 0, 0, "every second of eight days x zones" },
	{ "strings", strings, 0, 0, "every millisecond and every minute x zones x both formats" },
	{ "zones", zones, 0, 0, "ten time zones, every quarter of an hour of some years" },
	{ "dates", dates, 0, 0, "every day from 1600 (quick: to 4600, thorough: to 9999) x zones x times of day" },
#elif PART == 2
	{ "init", inits, 0, 0, "every order of initialisation, cleanup and use" },
	{ "cache", cache, 0, 0, "every sequence of requests over eight times, two zones, two formats" },
#else
	{ "sizes", rfcsmall, 0, 0, "every buffer size" },
	{ "wide", rfcwide, 0, 0, "stated sizes around 2^16, 2^31 and 2^32 of buffers that are much larger than needed" },
	{ "zones", rfczones, 0, 0, "eight time zones of the process, every few hours of a year" },
	{ "dates", rfc, 0, 0, "every day (quick: every fifth and the ends of months) from year 1000 to 9999" },
#endif
};
const int hx_n_scenarios = sizeof hx_scenarios / sizeof *hx_scenarios;
