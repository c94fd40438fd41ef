/* F01 parser model, F02 round trip, F03 faults, F04 reader. */
#include "seq.h"
#include <errno.h>
#include <ctype.h>
#include <strings.h>
#include <limits.h>
#include "vfs.h"
#define SCALE_ROOM
#include "scale.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"

/* ---- reference: ordered sections of ordered entries, names without regard to case ---- */
#define MS 8
#define ME 12
typedef struct { char k[300], v[300]; } ent_t;
typedef struct { char n[300]; ent_t e[ME]; int ne; } sec_t;
static sec_t m[MS];
static int ms, lax;                 /* lax: an empty section may be there or not (after a failed put) */
static ini_parser_handle P;
/* what an earlier failure of something else left in errno is nobody's business */
static ini_parser_handle dirty(ini_parser_handle p) { errno = ERANGE; return p; }
static int msec(const char* s) { for (int i = 0; i < ms; i++) if (!strcasecmp(m[i].n, s)) return i; return -1; }
static int ment(int i, const char* k) { if (i >= 0) for (int j = 0; j < m[i].ne; j++) if (!strcasecmp(m[i].e[j].k, k)) return j; return -1; }
static void mput(const char* s, const char* k, const char* v)
{
	int i = msec(s);
	if (i < 0) { i = ms++; strcpy(m[i].n, s); m[i].ne = 0; }
	int j = ment(i, k);
	if (j < 0) { j = m[i].ne++; strcpy(m[i].e[j].k, k); }
	strcpy(m[i].e[j].v, v ? v : "");
}
static int mdel(const char* s, const char* k)
{
	int i = msec(s), j = ment(i, k);
	if (j < 0) return 0;
	memmove(&m[i].e[j], &m[i].e[j + 1], (size_t)(m[i].ne - j - 1) * sizeof(ent_t));
	m[i].ne--;
	return 1;
}
static int mdels(const char* s)
{
	int i = msec(s);
	if (i < 0) return 0;
	memmove(&m[i], &m[i + 1], (size_t)(ms - i - 1) * sizeof(sec_t));
	ms--;
	return 1;
}
static int seen, stop, usr;
static int each(const char* s, const char* k, const char* v, const void* user)
{
	HX_CHECK(user == &usr, "foreach-user", "foreach passes a foreign argument");
	int n = seen, i = 0;
	while (i < ms && n >= m[i].ne) n -= m[i++].ne;
	HX_CHECK(i < ms, "foreach-extra", "foreach visits more entries than there are, or goes on after it was stopped: [%s] %s", s, k);
	HX_CHECK(!strcmp(s, m[i].n) && !strcmp(k, m[i].e[n].k) && !strcmp(v, m[i].e[n].v), "foreach", "entry %d is [%s] %.40s = %.40s instead of [%s] %.40s = %.40s", seen, s, k, v, m[i].n, m[i].e[n].k, m[i].e[n].v);
	HX_CHECK(seen < stop, "foreach-stop", "foreach goes on after it was stopped");
	return ++seen == stop ? 1 : 0;
}
static int total(void) { int t = 0; for (int i = 0; i < ms; i++) t += m[i].ne; return t; }
static void lookup(const char* s, const char* k)
{
	char b[300];
	memset(b, 'x', sizeof b);
	int i = msec(s), j = ment(i, k);
	int r = ini_parser_get_string(P, s, k, b, sizeof b);
	int h = ini_parser_has_section_key(P, s, k);
	HX_CHECK(h == r, "has-key", "[%s] %s: has gives %d, get gives %d", s, k, h, r);
	if (j < 0) { HX_CHECK(r == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "get-missing", "[%s] %s is not there, get gives %d", s, k, r); return; }
	HX_CHECK(r == 0 && !strcmp(b, m[i].e[j].v), "get", "[%s] %s is '%.60s' (%d) instead of '%.60s'", s, k, b, r, m[i].e[j].v);
	/* exactly enough, and one too few */
	size_t l = strlen(m[i].e[j].v);
	char* t = malloc(l + 1);
	r = ini_parser_get_string(P, s, k, t, l + 1);
	HX_CHECK(r == 0 && !strcmp(t, b), "get-exact", "a buffer of just the right size gives %d", r);
	free(t);
	if (l)
	{
		/* and still fewer */
		for (size_t q = l; q; q = q == 1 ? 0 : (q + 1) / 2)
		{
			t = malloc(q);
			memset(t, '?', q);
			r = ini_parser_get_string(P, s, k, t, q);
			HX_CHECK(r == INI_PARSER_CODE_NO_ENOUGH_MEMORY && t[0] == '?' && t[q - 1] == '?', "get-small", "a buffer of %zu bytes for %zu characters gives %d", q, l, r);
			free(t);
		}
	}
}
static uint64_t mh(void)
{
	uint64_t h = 77;
	for (int i = 0; i < ms; i++)
	{
		h = hx_hash(h, m[i].n, strlen(m[i].n) + 1);
		for (int j = 0; j < m[i].ne; j++) h = hx_hash(h, m[i].e[j].k, strlen(m[i].e[j].k) + 1), h = hx_hash(h, m[i].e[j].v, strlen(m[i].e[j].v) + 1);
	}
	return h;
}
static const char* SN[] = { "s", "S", "ss", "Ss", "none" };
static const char* KN[] = { "k", "K", "kk", "Kk", "none", "s" };
static void look(void)
{
	for (int i = 0; i < 5; i++)
	{
		int r = ini_parser_has_section(P, SN[i]);
		if (msec(SN[i]) >= 0 || !lax) HX_CHECK(r == (msec(SN[i]) >= 0 ? 0 : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY), "has-section", "has_section(%s) gives %d, %d sections", SN[i], r, ms);
		for (int j = 0; j < 6; j++) lookup(SN[i], KN[j]);
	}
	int t = total();
	for (stop = 1; stop <= t + 1; stop++)
	{
		seen = 0;
		int r = ini_parser_foreach(P, each, &usr);
		HX_CHECK(r == 0 && seen == (stop <= t ? stop : t), "foreach-count", "foreach visits %d of %d entries (stopped at %d), gives %d", seen, t, stop, r);
	}
	hx_state(mh());
	hx_trans(1);
}
static void start(void) { P = NULL, ms = 0, lax = 0; vfs_reset(); }
static void done(void)
{
	HX_CHECK(ini_parser_destroy(&P) == 0 && !P, "destroy", "destroy fails");
	HX_CHECK(ini_parser_destroy(&P) != 0 && ini_parser_destroy(NULL) != 0, "destroy-null", "destroying nothing succeeds");
	sq_check_leaks("leak");
	HX_CHECK(!vfs_open_files(), "stream-leak", "a file stays open");
	hx_outcome(mh());
}
static const char* VALS[] = { "v", "", NULL, "two words" };
static const char* TEXTS[] = { "[s]\nk=1\n[ss]\nkk : two\n", "[ss]\nkk=1\nkk=2\n[S]\nK=x\n[Ss]\nk=3", "[s]\r\nk = v ; c\r\n\r\nkk\r\n" };
static void init(int which)
{
	start();
	if (which == 0) P = ini_parser_create();
	else P = ini_parser_parse_str(TEXTS[which - 1]);
	HX_CHECK(P, "create", "no parser for text %d", which);
	if (which == 1) mput("s", "k", "1"), mput("ss", "kk", "two");
	if (which == 2) mput("ss", "kk", "1"), mput("ss", "kk", "2"), mput("S", "K", "x"), mput("ss", "k", "3");
	if (which == 3) mput("s", "k", "v"), mput("s", "kk", "");
}
/* one operation; k-th allocation fails if oom */
static void op(int o, int oom)
{
	int a = hx_choose(HX_T(3, 4), "section"), r;
	const char* s = SN[a];
	if (oom) sq_fail_alloc(oom, oom > 3);
	if (o == 0)
	{
		const char* k = KN[hx_choose(HX_T(3, 4), "key")];
		const char* v = VALS[hx_choose(HX_T(3, 4), "value")];
		hx_log("put [%s] %s = %s\n", s, k, v ? v : "(none)");
		r = ini_parser_put_string(P, s, k, v);
		int f = sq_alloc_fired();
		sq_fail_alloc(0, false);
		HX_CHECK(f || r == 0, "put", "put gives %d", r);
		HX_CHECK(!f || r != 0, "put-oom", "a put without memory succeeds");
		if (r == 0) mput(s, k, v); else if (msec(s) < 0 && ini_parser_has_section(P, s) == 0) { strcpy(m[ms].n, s); m[ms++].ne = 0; }
	}
	else if (o == 1)
	{
		const char* k = KN[hx_choose(HX_T(3, 4), "key")];
		hx_log("delete [%s] %s\n", s, k);
		r = ini_parser_delete_by_section_key(P, s, k);
		sq_fail_alloc(0, false);
		HX_CHECK(r == (mdel(s, k) ? 0 : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY), "delete-key", "deleting [%s] %s gives %d", s, k, r);
	}
	else
	{
		hx_log("delete [%s]\n", s);
		r = ini_parser_delete_section(P, s);
		sq_fail_alloc(0, false);
		HX_CHECK(r == (mdels(s) ? 0 : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY), "delete-section", "deleting [%s] gives %d", s, r);
	}
	look();
}
static void hist(void)
{
	init(hx_choose(4, "start"));
	look();
	for (int i = 0; i < HX_T(3, 4); i++) op(hx_choose(3, "operation"), 0);
	done();
}
/* deeper, with fewer names */
static void deep(void)
{
	init(hx_choose(2, "start"));
	for (int i = 0; i < HX_T(6, 7); i++)
	{
		int o = hx_choose(6, "operation"), r;
		const char *s = SN[o % 2 * 2], *k = KN[i % 2 * 2];
		char v[8];
		snprintf(v, sizeof v, "%d", i);
		if (o < 2) { r = ini_parser_put_string(P, s, k, v); mput(s, k, v); }
		else if (o < 4) r = ini_parser_delete_by_section_key(P, s, k) != (mdel(s, k) ? 0 : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY);
		else r = ini_parser_delete_section(P, s) != (mdels(s) ? 0 : INI_PARSER_CODE_NOT_FOUND_SECTION_KEY);
		HX_CHECK(r == 0, "result", "operation %d on [%s] %s gives the wrong result", o, s, k);
		look();
	}
	done();
}
static void args(void)
{
	init(1);
	char b[10];
	size_t bs = 10;
	int v; bool bo;
	int n = hx_choose(20, "call");
	int r = 1;
	switch (n)
	{
	case 0: r = ini_parser_put_string(NULL, "s", "k", "v"); break;
	case 1: r = ini_parser_put_string(P, NULL, "k", "v"); break;
	case 2: r = ini_parser_put_string(P, "s", NULL, "v"); break;
	case 3: r = ini_parser_put_string(P, "", "k", "v"); break;
	case 4: r = ini_parser_put_string(P, "s", "", "v"); break;
	case 5: r = ini_parser_get_string(NULL, "s", "k", b, 10); break;
	case 6: r = ini_parser_get_string(P, NULL, "k", b, 10); break;
	case 7: r = ini_parser_get_string(P, "", "k", b, 10); break;
	case 8: r = ini_parser_get_string(P, "s", "", b, 10); break;
	case 9: r = ini_parser_delete_by_section_key(P, NULL, "k"); break;
	case 10: r = ini_parser_delete_by_section_key(P, "s", NULL); break;
	case 11: r = ini_parser_delete_section(P, NULL); break;
	case 12: r = ini_parser_delete_section(NULL, "s"); break;
	case 13: r = ini_parser_foreach(NULL, each, &usr) == 0 || ini_parser_foreach(P, NULL, &usr) == 0 ? 0 : 1; break;
	case 14: r = ini_parser_dump_to_mem(NULL, b, &bs) == 0 || ini_parser_dump_to_mem(P, NULL, &bs) == 0 || ini_parser_dump_to_mem(P, b, NULL) == 0 ? 0 : 1; break;
	case 15: r = ini_parser_save(NULL, "f") == 0 || ini_parser_save(P, NULL) == 0 || ini_parser_save(P, "") == 0 ? 0 : 1; break;
	case 16: r = ini_parser_dump(NULL) != NULL ? 0 : 1; break;
	case 17: r = ini_parser_get_int(dirty(P), "s", "none", &v) == 0 || ini_parser_get_int(dirty(P), "none", "k", &v) == 0 || ini_parser_get_bool(NULL, "s", "k", &bo) == 0 ? 0 : 1; break;
	case 18: r = ini_parser_parse_file(NULL) != NULL || ini_parser_parse_file("") != NULL || ini_parser_parse_file("nothing") != NULL ? 0 : 1; break;
	default: r = ini_parser_delete_section(P, "") == 0 || ini_parser_delete_by_section_key(P, "s", "") == 0 || ini_parser_delete_by_section_key(P, "", "k") == 0 ? 0 : 1;
	}
	HX_CHECK(r != 0, "argument", "call %d with a missing argument succeeds", n);
	look();
	done();
}
/* names and values of every length: what is accepted can be found */
static void lens(void)
{
	init(hx_choose(2, "start"));
	static const int L[] = { 1, 2, 48, 49, 50, 62, 63, 64, 65, 127, 128, 199, 200, 253, 254, 255, 256, 257, 290 };
	char s[300], k[300], v[300], s2[300];
	int a = hx_choose(19, "section length"), b = hx_choose(19, "key length"), c = hx_choose(20, "value length");
	memset(s, 's', 300), memset(k, 'k', 300), memset(v, 'v', 300);
	s[L[a]] = k[L[b]] = 0, v[c ? L[c - 1] : 0] = 0;
	strcpy(s2, s), s2[L[a] - 1] = 't';
	for (int i = 0; i < 2; i++)
	{	/* twice: adding and replacing */
		v[0] = c ? (char)('a' + i) : 0;
		int r = ini_parser_put_string(P, s, k, v);
		if (L[a] < 64 && L[b] < 64 && (!c || L[c - 1] < 256)) HX_CHECK(r == 0, "put-length", "%d/%d/%d characters are refused", L[a], L[b], c ? L[c - 1] : 0);
		if (r == 0) mput(s, k, v);
		lookup(s, k);
	}
	/* a name that differs in its last character only is another one */
	int r = ini_parser_put_string(P, s2, k, "x");
	if (r == 0) mput(s2, k, "x");
	lookup(s, k), lookup(s2, k);
	char* k2 = strdup(k);
	k2[L[b] - 1] = 'l';
	r = ini_parser_put_string(P, s, k2, "y");
	if (r == 0) mput(s, k2, "y");
	lookup(s, k), lookup(s, k2), lookup(s2, k);
	if (r == 0) { r = ini_parser_delete_by_section_key(P, s, k2); HX_CHECK(r == 0, "delete-long", "%d", r); mdel(s, k2); lookup(s, k), lookup(s, k2); }
	free(k2);
	int n = ms;
	for (int i = 0; i < n; i++) { r = ini_parser_delete_section(P, m[0].n); HX_CHECK(r == 0, "delete-long", "%d", r); mdels(m[0].n); }
	look();
	done();
}
/* numbers */
static int ref_int(const char* t, __int128* v)
{
	int neg = 0, any = 0, base = 10;
	while (isspace((unsigned char)*t)) t++;
	if (*t == '+' || *t == '-') neg = *t++ == '-';
	if (*t == '0') { if ((t[1] | 32) == 'x' && isxdigit((unsigned char)t[2])) base = 16, t += 2; else base = 8; }
	*v = 0;
	for (; *t; t++)
	{
		int d = isdigit((unsigned char)*t) ? *t - '0' : isalpha((unsigned char)*t) ? (*t | 32) - 'a' + 10 : 99;
		if (d >= base) return 0;
		*v = *v * base + d;
		if (*v > ((__int128)1 << 100)) *v = (__int128)1 << 100;
		any = 1;
	}
	if (neg) *v = -*v;
	return any;
}
static const char* NUM[] = { "0", "1", "-1", "+7", "007", "010", "08", "0x1F", "0X7fffffff", "0x", "x", "1x", "12 ", " 12", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967296", "8589934593",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "0x80000000", "0xffffffff", "0x8000000000000000", "0x100000000", "1.5", "-", "+", "1e3", "--1", "", " ", "017777777777", "020000000000" };
static void nums(void)
{
	start();
	P = ini_parser_create();
	const char* t = NUM[hx_choose(sizeof NUM / sizeof *NUM, "text")];
	HX_CHECK(ini_parser_put_string(P, "s", "k", t) == 0, "put", "'%s'", t);
	__int128 v;
	int ok = ref_int(t, &v);
	int i = 0; long l = 0; long long ll = 0; bool b = false;
	int r = ini_parser_get_int(dirty(P), "s", "k", &i);
	int want = ok && v >= INT_MIN && v <= INT_MAX;
	HX_CHECK((r == 0) == want && (!want || i == (int)v), "get-int", "'%s' as int gives %d (%d)", t, i, r);
	r = ini_parser_get_long(dirty(P), "s", "k", &l);
	want = ok && v >= LONG_MIN && v <= LONG_MAX;
	HX_CHECK((r == 0) == want && (!want || l == (long)v), "get-long", "'%s' as long gives %ld (%d)", t, l, r);
	r = ini_parser_get_long_long(dirty(P), "s", "k", &ll);
	HX_CHECK((r == 0) == want && (!want || ll == (long long)v), "get-long-long", "'%s' as long long gives %lld (%d)", t, ll, r);
	b = hx_choose(2, "old bool");
	r = ini_parser_get_bool(dirty(P), "s", "k", &b);
	HX_CHECK((r == 0) == want && (!want || b == (v != 0)), "get-bool", "'%s' as bool gives %d (%d)", t, b, r);
	done();
}
static const char* DBL[] = { "0", "1.5", "-2.25", "1e3", "1e-3", ".5", "5.", "0x10", "1.5x", "x", "", " ", "1,5", "3.4e38", "1e300", "-0.125", "16777217", "1 " };
static void dbls(void)
{
	start();
	P = ini_parser_create();
	const char* t = DBL[hx_choose(sizeof DBL / sizeof *DBL, "text")];
	ini_parser_put_string(P, "s", "k", t);
	char* e;
	double w = strtod(t, &e), d = 77;
	int ok = *t && e != t && !*e;
	if (!*t || e == t) ok = 0;
	int r = ini_parser_get_double(dirty(P), "s", "k", &d);
	HX_CHECK((r == 0) == ok && (!ok || d == w), "get-double", "'%s' as double gives %g (%d)", t, d, r);
	float f = 77, wf = strtof(t, NULL);
	r = ini_parser_get_float(P, "s", "k", &f);
	HX_CHECK((r == 0) == ok && (!ok || f == wf), "get-float", "'%s' as float gives %g (%d)", t, (double)f, r);
	done();
}
static const struct { const char* t; int v; } WORD[] = { { "true", 1 }, { "TRUE", 1 }, { "True", 1 }, { "false", 0 }, { "FALSE", 0 }, { "yes", 1 }, { "Yes", 1 }, { "YES", 1 }, { "no", 0 }, { "NO", 0 }, { "No", 0 }, { "maybe", -1 }, { "on", -1 }, { "tru", -1 }, { "y", -1 }, { "n", -1 }, { "fals", -1 }, { "", -1 }, { "t", -1 } };
static void words(void)
{
	start();
	P = ini_parser_create();
	int n = hx_choose(sizeof WORD / sizeof *WORD, "word");
	ini_parser_put_string(P, "s", "k", WORD[n].t);
	bool b = hx_choose(2, "old");
	int r = ini_parser_get_bool(dirty(P), "s", "k", &b);
	HX_CHECK((r == 0) == (WORD[n].v >= 0) && (r || b == WORD[n].v), "get-bool", "'%s' as bool gives %d (%d)", WORD[n].t, b, r);
	done();
}
/* is it a path */
static void wide(void)
{	/* destinations that are much larger than what goes into them */
	start();
	P = ini_parser_parse_str("[s]\nk = some value\ne =\n");
	HX_CHECK(P, "parse", "fails");
	char *b = room(), *t = ini_parser_dump(P);
	for (int k = 0; k < NROOM; k++)
	{
		size_t n = room_n[k], m = n;
		memset(b, 'z', 200);
		int r = ini_parser_get_string(P, "s", "k", b, n);
		HX_CHECK(r == 0 && !strcmp(b, "some value"), "get-room", "a value into %zu bytes gives %d, '%.20s'", n, r, b);
		memset(b, 'z', 200);
		r = ini_parser_dump_to_mem(P, b, &m);
		HX_CHECK(r == 0 && !strcmp(b, t), "dump-room", "the dump into %zu bytes gives %d, '%.40s'", n, r, b);
		hx_eval(2), hx_trans(2), hx_state((uint64_t)k);
	}
	sq_free(t);
	done();
}
static void ispath(void)
{
	static const char A[] = "a /[#\n=";
	char t[8];
	int n = hx_choose(6, "length");
	for (int i = 0; i < n; i++) t[i] = A[hx_choose(7, "character")];
	t[n] = 0;
	const char* p = t;
	while (*p == ' ') p++;
	bool w = n && !strchr(t, '\n') && *p != '[' && *p != '#';
	HX_CHECK(ini_parser_is_file_path(t) == w, "is-file-path", "'%s' gives %d", t, !w);
	HX_CHECK(!ini_parser_is_file_path(NULL), "is-file-path", "NULL");
}

/* ---- many sections, many entries, long values ---- */
static const struct { int s, e, v; } BIG[] = { { 1, 300, 4 }, { 300, 1, 4 }, { 1, 5000, 8 }, { 2500, 1, 8 }, { 70, 70, 30 }, { 1, 1100, 60 }, { 257, 3, 90 } };
static int bo, bn, bstop;
static char bdel[6000];
static void bname(int i, char* s, char* k, char* v, int gen)
{
	int ne = BIG[bo].e, l = BIG[bo].v;
	sprintf(s, "Sec-%d", i / ne), sprintf(k, "key.%d", i % ne);
	int n = sprintf(v, "%d.%d:", i, gen);
	while (n < l) v[n] = (char)('a' + (i + n * 7) % 26), n++;
	v[n] = 0;
}
static int beach(const char* s, const char* k, const char* v, const void* u)
{
	char a[40], b[40], c[120];
	while (bn < BIG[bo].s * BIG[bo].e && bdel[bn] == 1) bn++;
	HX_CHECK(u == &bo && bn < BIG[bo].s * BIG[bo].e, "foreach-extra", "foreach visits more entries than there are");
	bname(bn, a, b, c, bdel[bn] / 2);
	HX_CHECK(!strcmp(s, a) && !strcmp(k, b) && !strcmp(v, c), "foreach", "entry %d is [%s] %s = %.40s instead of [%s] %s = %.40s", bn, s, k, v, a, b, c);
	bn++;
	return ++bstop == -1;
}
static void blook(ini_parser_handle h)
{
	char a[40], b[40], c[120], g[120];
	int n = BIG[bo].s * BIG[bo].e, live = 0;
	bn = 0, bstop = 0;
	for (int i = 0; i < n; i++) live += bdel[i] != 1;
	HX_CHECK(ini_parser_foreach(h, beach, &bo) == 0 && bstop == live, "foreach-count", "foreach visits %d of %d entries", bstop, live);
	for (int i = 0; i < n; i += n / 600 + 1)
	{
		bname(i, a, b, c, bdel[i] / 2);
		if (i & 1) for (char* q = a; *q; q++) *q = (char)toupper((unsigned char)*q);
		int r = ini_parser_get_string(h, a, b, g, sizeof g);
		if (bdel[i] == 1) HX_CHECK(r == INI_PARSER_CODE_NOT_FOUND_SECTION_KEY, "get-missing", "[%s] %s was deleted, get gives %d", a, b, r);
		else HX_CHECK(r == 0 && !strcmp(g, c), "get", "entry %d of %d gives %d", i, n, r);
	}
	hx_trans((uint64_t)n);
}
static void scalefill(int how)
{	/* how 0: put one after another, 1: parsed, 2: put in reverse order within a section made first */
	char a[40], b[40], c[120];
	int n = BIG[bo].s * BIG[bo].e;
	memset(bdel, 0, sizeof bdel);
	start();
	if (how == 0)
	{
		P = ini_parser_create();
		for (int i = 0; i < n; i++) { bname(i, a, b, c, 0); HX_CHECK(ini_parser_put_string(P, a, b, c) == 0, "put", "entry %d is refused", i); }
	}
	else
	{
		char* t = malloc((size_t)n * 160 + 100), *p = t;
		for (int i = 0; i < n; i++) { bname(i, a, b, c, 0); if (i % BIG[bo].e == 0) p += sprintf(p, "[%s]\n", a); p += sprintf(p, "%s = %s%s\n", b, c, i % 3 ? "" : " ; note"); }
		P = ini_parser_parse_str(t);
		free(t);
	}
	HX_CHECK(P, "create", "no parser");
}
static void scalef01(void)
{
	char a[40], b[40], c[120];
	bo = hx_choose(7, "entries");
	scalefill(hx_choose(2, "parsed"));
	int n = BIG[bo].s * BIG[bo].e;
	blook(P);
	for (int i = 0; i < n; i += 7) { bname(i, a, b, c, 1); HX_CHECK(ini_parser_put_string(P, a, b, c) == 0, "put", "entry %d is refused", i); bdel[i] = 2; }
	blook(P);
	for (int i = 0; i < n; i += 11) { bname(i, a, b, c, 1); HX_CHECK(ini_parser_delete_by_section_key(P, a, b) == 0, "delete-key", "entry %d of %d", i, n); bdel[i] = 1; }
	blook(P);
	for (int i = 0; i < BIG[bo].s; i += 5)
	{
		bname(i * BIG[bo].e, a, b, c, 1);
		HX_CHECK(ini_parser_delete_section(P, a) == 0, "delete-section", "section %d", i);
		HX_CHECK(ini_parser_has_section(P, a) != 0, "has-section", "section %d is still there", i);
		for (int j = 0; j < BIG[bo].e; j++) bdel[i * BIG[bo].e + j] = 1;
	}
	blook(P);
	hx_state(hx_mix((uint64_t)bo, 99));
	done();
}
static void scalef02(void)
{
	bo = hx_choose(7, "entries");
	scalefill(hx_choose(2, "parsed"));
	char* t = ini_parser_dump(P);
	HX_CHECK(t, "dump", "no dump");
	ini_parser_handle q = ini_parser_parse_str(t);
	HX_CHECK(q, "reparse", "the dump is refused");
	blook(q);
	ini_parser_destroy(&q);
	size_t l = strlen(t), m2 = l * 2 + 9000;
	char* d = malloc(m2);
	HX_CHECK(ini_parser_dump_to_mem(P, d, &m2) == 0 && !strcmp(d, t), "dump-to-mem", "the text is another one");
	free(d);
	HX_CHECK(ini_parser_save(P, "conf.ini") == 0, "save", "not saved");
	q = ini_parser_parse_file("conf.ini");
	HX_CHECK(q, "reparse", "the saved file is refused");
	blook(q);
	ini_parser_destroy(&q);
	sq_free(t);
	hx_state(hx_mix((uint64_t)bo, 98));
	done();
}

/* ---- F02: what is dumped or saved reads back the same ---- */
static void reread(ini_parser_handle q, const char* how)
{
	ini_parser_handle o = P;
	HX_CHECK(q, "reparse", "the %s text is refused", how);
	/* sections without entries cannot be told from missing ones in the text: drop them from the reference */
	static sec_t keep[MS];
	int n = ms;
	memcpy(keep, m, sizeof m);
	for (int i = 0; i < ms;) if (!m[i].ne) mdels(m[i].n); else i++;
	P = q;
	for (int i = 0; i < ms; i++) for (int j = 0; j < m[i].ne; j++) lookup(m[i].n, m[i].e[j].k);
	stop = 1000, seen = 0;
	ini_parser_foreach(P, each, &usr);
	HX_CHECK(seen == total(), "reparse-count", "the %s text gives %d entries instead of %d", how, seen, total());
	ini_parser_destroy(&P);
	memcpy(m, keep, sizeof m), ms = n, P = o;
}
static void roundtrip(void)
{
	char* t = ini_parser_dump(P);
	HX_CHECK(t, "dump", "no dump");
	size_t l = strlen(t);
	if (ms) HX_CHECK(l > 0, "dump-empty", "an empty text for %d sections", ms);
	reread(ini_parser_parse_str(t), "dumped");
	for (int i = 0; i < ms; i++)
	{	/* the header of every section is there */
		char h[310];
		snprintf(h, sizeof h, "[%s]", m[i].n);
		HX_CHECK(strstr(t, h), "dump-header", "%s is missing in the dump", h);
	}
	/* into memory: every size is either refused or sufficient */
	static const size_t SZ[] = { 1, 2, 10, 60, 64, 70, 80, 90, 100, 128, 200, 300, 400, 2000, 9000 };
	int k = hx_choose(17, "memory size");
	size_t n = k < 15 ? SZ[k] : l + (size_t)(k - 15), n0 = n;
	if (n == 0) n = n0 = 1;
	char* b = malloc(n);
	int r = ini_parser_dump_to_mem(P, b, &n);
	if (l && n0 >= 9000) HX_CHECK(r == 0, "dump-to-mem", "%zu bytes are not enough for %zu: %d", n0, l, r);
	if (n0 <= l) HX_CHECK(r != 0, "dump-to-mem-small", "%zu bytes are enough for %zu", n0, l);
	if (r == 0)
	{
		HX_CHECK(n == strlen(b) + 1, "dump-to-mem-size", "the size is %zu for %zu characters", n, strlen(b));
		reread(ini_parser_parse_str(b), "dumped");
	}
	free(b);
	/* into a file */
	vfs_put("conf.ini", "old", 3);
	r = ini_parser_save(P, "conf.ini");
	if (l) HX_CHECK(r == 0, "save", "saving gives %d", r);
	HX_CHECK(!vfs_open_files(), "save-stream", "the file stays open after saving");
	if (r == 0 && l >= 6) reread(ini_parser_parse_file("conf.ini"), "saved");
	HX_CHECK(!vfs_open_files(), "parse-stream", "the file stays open after parsing");
	sq_free(t);
	hx_trans(1);
	hx_state(mh());
}
static const char* RS[] = { "s", "a b", "#Z9.-_", "S" };
static const char* RK[] = { "k", "two words", "x.y", "z]", "k#" };
static const char* RV[] = { "", "a b  c", "x;y", "[q]", "a=b:c", "#\xe2\x82\xac" };
static void rthist(void)
{
	init(hx_choose(2, "start"));
	for (int i = 0; i < HX_T(2, 3); i++)
	{
		const char *s = RS[hx_choose(HX_T(3, 4), "section")], *k = RK[hx_choose(HX_T(4, 5), "key")], *v = RV[hx_choose(6, "value")];
		HX_CHECK(ini_parser_put_string(P, s, k, v) == 0, "put", "refused");
		mput(s, k, v);
	}
	int d = hx_choose(4, "delete");
	if (d == 1 && ms) ini_parser_delete_section(P, m[0].n), mdels(m[0].n);
	if (d == 2 && ms && m[ms - 1].ne) ini_parser_delete_by_section_key(P, m[ms - 1].n, m[ms - 1].e[0].k), mdel(m[ms - 1].n, m[ms - 1].e[0].k);
	if (d == 3) while (ms) ini_parser_delete_section(P, m[0].n), mdels(m[0].n);
	roundtrip();
	done();
}
/* all texts over an alphabet: what the parser makes of them survives dump and parse */
static void rttext(void)
{
	static const char A[] = "ak=[] ;\n:";
	char t[24] = "[x]\n";
	int n = hx_choose(HX_T(6, 7), "length"), p = 4;
	for (int i = 0; i < n; i++) t[p++] = A[hx_choose(9, "character")];
	t[p] = 0;
	start();
	P = ini_parser_parse_str(t);
	if (!P) { sq_check_leaks("parse-leak"); return; }
	char* d = ini_parser_dump(P);
	ini_parser_handle q = ini_parser_parse_str(d);
	/* names that the format cannot express are left out */
	bool odd = strstr(t, "[]") || strstr(t, "\n=") || strstr(t, "\n:") || strstr(t, "\n ") || strchr(t + 1, '[') || strstr(t, "; ") || strchr(t, ';');
	if (!odd)
	{
		HX_CHECK(q, "reparse", "the dump of '%s' is refused", t);
		char* e = ini_parser_dump(q);
		HX_CHECK(!strcmp(d, e), "reparse-text", "'%s' dumps as '%s', which dumps as '%s'", t, d, e);
		sq_free(e);
	}
	hx_outcome(hx_hash(1, d, strlen(d)));
	hx_state(hx_hash(2, d, strlen(d)));
	hx_trans(2);
	sq_free(d);
	if (q) ini_parser_destroy(&q);
	ini_parser_destroy(&P);
	sq_check_leaks("leak");
}
/* entries of every length the format has room for */
static void rtlen(void)
{
	init(0);
	int a = hx_choose(49, "section length") + 1, b = hx_choose(7, "key length"), c = hx_choose(8, "value length");
	static const int KL[] = { 1, 2, 47, 48, 49, 50, 60 }, VL[] = { 0, 1, 63, 64, 90, 100, 120, 130 };
	char s[300], k[300], v[300];
	memset(s, 's', 300), memset(k, 'k', 300), memset(v, 'v', 300);
	s[a] = k[KL[b]] = v[VL[c]] = 0;
	ini_parser_put_string(P, s, k, v), mput(s, k, v);
	int more = hx_choose(3, "more entries") * 4;
	for (int i = 0; i < more; i++) { k[0] = (char)('A' + i); HX_CHECK(ini_parser_put_string(P, s, k, v) == 0, "put", "refused"); mput(s, k, v); }
	roundtrip();
	done();
}

/* ---- F03: no memory, failing files ---- */
static void oomhist(void)
{
	init(hx_choose(2, "start"));
	int at = hx_choose(2, "failing operation");
	int k = 1 + hx_choose(6, "allocation");
	for (int i = 0; i < HX_T(2, 3); i++)
	{
		int o = hx_choose(3, "operation");
		op(o, i == at && o == 0 ? k : 0);
		if (i == at && o) hx_prune();
	}
	done();
}
static void oomtext(void)
{	/* parse, dump, save without memory */
	start();
	int w = hx_choose(3, "text"), what = hx_choose(6, "operation");
	bool sticky = hx_choose(2, "lasting");
	int k = 1 + hx_choose(60, "allocation");
	init(w + 1);
	static const char big[] = "[s]\nk=1\n[ss]\nkk=2\n[third]\nname=aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\nnamf=bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\n[forth]\nx=y\n";
	if (hx_choose(2, "large"))
	{
		ini_parser_destroy(&P);
		P = ini_parser_parse_str(big);
		ms = 0;
		mput("s", "k", "1"), mput("ss", "kk", "2"), mput("third", "name", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), mput("third", "namf", "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"), mput("forth", "x", "y");
	}
	vfs_put("conf.ini", "[old]\nk=v\n", 10);
	vfs_put("in.ini", big, sizeof big - 1);
	int live = sq_live();
	char* t = ini_parser_dump(P);
	char mem[4000];
	size_t n = sizeof mem;
	ini_parser_handle q = NULL;
	sq_fail_alloc(k, sticky);
	int r = 0;
	char* d = NULL;
	switch (what)
	{
	case 0: d = ini_parser_dump(P); r = !d; break;
	case 1: r = ini_parser_dump_to_mem(P, mem, &n); break;
	case 2: r = ini_parser_save(P, "conf.ini"); break;
	case 3: q = ini_parser_parse_str(big); r = !q; break;
	case 4: q = ini_parser_parse_file("in.ini"); r = !q; break;
	default: q = ini_parser_create(); r = !q;
	}
	int f = sq_alloc_fired();
	sq_fail_alloc(0, false);
	if (!f && k > 1) { sq_free(t), sq_free(d); if (q) ini_parser_destroy(&q); hx_prune(); }
	HX_CHECK(!f || r != 0, "oom-result", "operation %d succeeds although allocation %d failed", what, k);
	HX_CHECK(f || r == 0, "result", "operation %d gives %d", what, r);
	if (d) { HX_CHECK(!strcmp(d, t), "dump-same", "two dumps differ"); sq_free(d); }
	if (what == 1 && r == 0) HX_CHECK(!strcmp(mem, t), "dump-same", "two dumps differ");
	if (what == 2)
	{
		const char* c = vfs_get("conf.ini", &n);
		HX_CHECK(r ? !strcmp(c, "[old]\nk=v\n") : !strcmp(c, t), "save-file", "the file holds '%.40s' after saving gave %d", c, r);
	}
	if (q) ini_parser_destroy(&q);
	sq_free(t);
	HX_CHECK(sq_live() == live, "oom-leak", "operation %d leaks when allocation %d fails", what, k);
	HX_CHECK(!vfs_open_files(), "stream-leak", "a file stays open");
	for (int i = 0; i < ms; i++) for (int j = 0; j < m[i].ne; j++) lookup(m[i].n, m[i].e[j].k);
	hx_outcome((uint64_t)(what * 2 + r));
	hx_trans(1);
	hx_state(mh());
	done();
}
static void iofault(void)
{
	int w = hx_choose(3, "text"), save = hx_choose(2, "save");
	init(w + 1);
	int big = hx_choose(3, "size");
	char v[120];
	memset(v, 'v', 119), v[119] = 0;
	static const char* fix = "abcdefghijkl";
	for (int i = 0; i < big * 5; i++) { char k[3] = { fix[i], fix[i], 0 }; ini_parser_put_string(P, "big", k, v); mput("big", k, v); }
	char* t = ini_parser_dump(P);
	size_t n;
	if (!save) vfs_put("conf.ini", t, strlen(t)); else vfs_put("conf.ini", "[old]\nk=v\n", 10);
	int how = hx_choose(2, "short or error"), kind = hx_choose(4, "kind"), k = 1 + hx_choose(6, "access");
	static const int KM[] = { 1 << VFS_OPEN, 1 << VFS_READ | 1 << VFS_WRITE, 1 << VFS_SEEK, 1 << VFS_CLOSE };
	if (kind != 1 && how == VFS_SHORT) { sq_free(t); hx_prune(); }
	long sp = -1;
	if (save && kind == 3) { how = VFS_ERROR; static const long S[] = { 0, 1, 5, 20, 100, 400 }; sp = S[k - 1]; vfs_space(sp); }
	else vfs_fail((unsigned)KM[kind], k, how, hx_choose(2, "lasting"));
	int hook = 0;
	if (save)
	{
		int r = ini_parser_save(P, "conf.ini");
		if (sp < 0 && !vfs_fired()) { sq_free(t); hx_prune(); }
		vfs_fail(0, 0, 0, 0);
		const char* c = vfs_get("conf.ini", &n);
		bool whole = c && n == strlen(t) && !memcmp(c, t, n);
		HX_CHECK(r != 0 || whole, "save-lost", "saving reports success, the file has %zu of %zu characters", n, strlen(t));
		if (kind == 0) HX_CHECK(c && !strcmp(c, "[old]\nk=v\n"), "save-open", "a file that could not be opened is changed");
		hook = r * 2 + whole;
	}
	else
	{
		ini_parser_handle q = ini_parser_parse_file("conf.ini");
		int f = vfs_fired();
		vfs_fail(0, 0, 0, 0);
		if (!f) { if (q) ini_parser_destroy(&q); sq_free(t); hx_prune(); }
		if (how == VFS_SHORT && kind == 1) HX_CHECK(q, "parse-short-read", "a short read makes parsing fail");
		if (kind == 0) HX_CHECK(!q, "parse-open", "a file that could not be opened is parsed");
		hook = q != NULL;
		if (q) reread(q, "saved");
	}
	HX_CHECK(!vfs_open_files(), "stream-leak", "a file stays open");
	sq_free(t);
	hx_outcome(hx_mix((uint64_t)hook, (uint64_t)(kind * 2 + save)));
	hx_trans(1);
	hx_state(mh());
	done();
}

/* ---- F04: the reader against a reference written from its documentation ---- */
#if INI_HANDLER_LINENO
#define LNO , int lineno
#define LNOV lineno
#else
#define LNO
#define LNOV 0
#endif
#if INI_CUSTOM_ALLOCATOR
static int ownblocks;
void* ini_reader_malloc(size_t n) { void* p = sq_malloc(n); ownblocks += p != NULL; return p; }
void ini_reader_free(void* p) { if (p) ownblocks--, sq_free(p); }
void* ini_reader_realloc(void* p, size_t n) { return sq_realloc(p, n); }
#define OWN() HX_CHECK(ownblocks == 0, "reader-allocator", "%d blocks of the caller's allocator are left", ownblocks)
#else
#define OWN()
#endif
#define LV (INI_MAX_LINE + 60)
typedef struct { char s[60], n[LV], v[LV]; int nov, non, line; } call_t;
static call_t got[64], ref[64];
static int ngot, nref, bad;         /* bad: the handler rejects that call */
static int rd_cb(void* u, const char* s, const char* n, const char* v LNO)
{
	HX_CHECK(u == &usr, "handler-user", "the handler gets a foreign argument");
	HX_CHECK(ngot < 64, "handler-calls", "the handler is called too often");
	snprintf(got[ngot].s, 60, "%s", s), snprintf(got[ngot].n, LV, "%s", n ? n : ""), snprintf(got[ngot].v, LV, "%s", v ? v : "");
	got[ngot].nov = !v, got[ngot].non = !n, got[ngot].line = LNOV;
	return ngot++ != bad;
}
static char* trim(char* s) { while (isspace((unsigned char)*s)) s++; char* e = s + strlen(s); while (e > s && isspace((unsigned char)e[-1])) *--e = 0; return s; }
static void cutcomment(char* s) { if (!INI_ALLOW_INLINE_COMMENTS) return; for (char* p = s; *p; p++) if (*p == ';' && p > s && isspace((unsigned char)p[-1])) { *p = 0; return; } }
static void rcall(const char* s, const char* n, const char* v, int line, int* err)
{
	snprintf(ref[nref].s, 60, "%s", s), snprintf(ref[nref].n, LV, "%s", n ? n : ""), snprintf(ref[nref].v, LV, "%s", v ? v : "");
	ref[nref].nov = !v, ref[nref].non = !n, ref[nref].line = INI_HANDLER_LINENO ? line : 0;
	if (nref++ == bad && !*err) *err = line;
}
static int reference(const char* t)
{
	char sec[51] = "", prev[LV] = "", b[1200];
	int err = 0, line = 0;
	nref = 0;
	while (*t && !(err && INI_STOP_ON_FIRST_ERROR))
	{
		size_t l = strcspn(t, "\n");
		memcpy(b, t, l), b[l] = 0;
		t += l + (t[l] == '\n');
		line++;
		char* p = b;
		if (INI_ALLOW_BOM && line == 1 && !strncmp(p, "\xef\xbb\xbf", 3)) p += 3;
		int indent = isspace((unsigned char)*p) != 0;
		char* s = trim(p);
		if (!*s || *s == ';' || *s == '#') continue;
		if (INI_ALLOW_MULTILINE && indent && *prev) { cutcomment(s); rcall(sec, prev, trim(s), line, &err); continue; }
		if (*s == '[')
		{	/* ends at ], unless a comment begins before */
			char* e = s + 1;
			while (*e && *e != ']' && !(INI_ALLOW_INLINE_COMMENTS && *e == ';' && e > s + 1 && isspace((unsigned char)e[-1]))) e++;
			if (*e == ']') { *e = 0; snprintf(sec, 50, "%s", s + 1); *prev = 0; if (INI_CALL_HANDLER_ON_NEW_SECTION) rcall(sec, NULL, NULL, line, &err); }
			else if (!err) err = line;
			continue;
		}
		char* e = s;
		while (*e && *e != '=' && *e != ':' && !(INI_ALLOW_INLINE_COMMENTS && *e == ';' && e > s && isspace((unsigned char)e[-1]))) e++;
		if (*e == '=' || *e == ':')
		{
			*e = 0;
			char* v = e + 1;
			cutcomment(v);
			snprintf(prev, 50, "%s", trim(s));
			rcall(sec, trim(s), trim(v), line, &err);
		}
		else if (INI_ALLOW_NO_VALUE) { *e = 0; rcall(sec, trim(s), NULL, line, &err); }
		else if (!err) err = line;
	}
	return err;
}
static void compare(const char* t, int r, const char* how)
{
	int w = reference(t);
	for (int i = 0; i < ngot && i < nref; i++)
		HX_CHECK(!strcmp(got[i].s, ref[i].s) && !strcmp(got[i].n, ref[i].n) && !strcmp(got[i].v, ref[i].v) && got[i].nov == ref[i].nov && got[i].non == ref[i].non && got[i].line == ref[i].line, "reader-call",
			"%s: call %d for '%.60s' is [%s] '%.30s' '%.30s'%s instead of [%s] '%.30s' '%.30s'%s", how, i, t, got[i].s, got[i].n, got[i].v, got[i].nov ? " (none)" : "", ref[i].s, ref[i].n, ref[i].v, ref[i].nov ? " (none)" : "");
	HX_CHECK(ngot == nref, "reader-calls", "%s: '%.60s' gives %d calls instead of %d", how, t, ngot, nref);
	HX_CHECK(r == w, "reader-result", "%s: '%.60s' gives %d instead of %d", how, t, r, w);
	hx_outcome(hx_hash((uint64_t)r, got, sizeof(call_t) * (size_t)ngot));
	hx_state(hx_hash(3, t, strlen(t)));
	hx_trans((uint64_t)ngot + 1);
	memset(got, 0, sizeof(call_t) * (size_t)ngot);
}
/* a reader of the caller's, like fgets */
static char* myread(char* b, int n, void* u)
{
	const char** p = u;
	int k = 0;
	HX_CHECK(n > 1, "reader-room", "a reader is asked for a line of %d characters", n);
	if (!**p) return NULL;
	while (k < n - 1 && **p) if ((b[k++] = *(*p)++) == '\n') break;
	b[k] = 0;
	return b;
}
FILE* vfs_fopen(const char* path, const char* mode);
int vfs_fclose(FILE* f);
static void rd(const char* t, int ways)
{
	char* h = malloc(strlen(t) + 1);
	strcpy(h, t);
	ngot = 0;
	compare(t, ini_reader_parse_string(h, rd_cb, &usr), "string");
	free(h);
	if (ways)
	{
		vfs_reset();
		vfs_put("f.ini", t, strlen(t));
		ngot = 0;
		compare(t, ini_reader_parse("f.ini", rd_cb, &usr), "file");
		HX_CHECK(!vfs_open_files(), "reader-stream", "the file stays open");
		ngot = 0;
		const char* q = t;
		compare(t, ini_reader_parse_stream(myread, &q, rd_cb, &usr), "stream");
		/* a stream of the caller's, of which a line was read before: it stays the caller's */
		char whole[LV + 900];
		size_t l = (size_t)sprintf(whole, "kept = 1\n%s", t);
		vfs_put("g.ini", whole, l);
		FILE* f = vfs_fopen("g.ini", "r");
		HX_CHECK(fgets(whole, 20, f) && !strcmp(whole, "kept = 1\n"), "harness", "the first line");
		ngot = 0;
		compare(t, ini_reader_parse_file(f, rd_cb, &usr), "open stream");
		HX_CHECK(vfs_open_files() == 1, "reader-closes", "the caller's stream is closed");
		ngot = 0;
		HX_CHECK(INI_STOP_ON_FIRST_ERROR || (ini_reader_parse_file(f, rd_cb, &usr) == 0 && ngot == 0), "reader-end", "a stream at its end gives %d calls", ngot);
		vfs_fclose(f);
	}
	OWN();
	sq_check_leaks("leak");
}
#if !INI_USE_STACK
static void rdoom(void)
{	/* no memory for the line: an error, nothing kept */
	char t[2000];
	int k = 1 + hx_choose(4, "failing allocation"), n = hx_choose(4, "long lines"), at = 0;
	for (int i = 0; i < 3; i++)
	{
		memset(t + at, 'n', 3), t[at + 3] = '=';
		int l = i < n && INI_ALLOW_REALLOC ? 190 + 110 * i : 20;
		memset(t + at + 4, 'v', (size_t)l), at += l + 4;
		t[at++] = '\n';
	}
	t[at] = 0;
	bad = -1, ngot = 0;
	sq_fail_alloc(k, hx_choose(2, "lasting"));
	int r = ini_reader_parse_string(t, rd_cb, &usr), fired = sq_alloc_fired();
	sq_fail_alloc(0, false);
	if (!fired) { int w = reference(t); HX_CHECK(r == w && ngot == nref, "reader-result", "the result is %d after %d calls", r, ngot); }
	else HX_CHECK(r == -2, "reader-oom", "without memory the result is %d", r);
	memset(got, 0, sizeof got);
	OWN();
	sq_check_leaks("leak");
	hx_trans(1), hx_outcome((uint64_t)r), hx_state((uint64_t)(k * 8 + n));
}
#endif
static void rdtexts(void)
{
	static const char A[] = "a=[ ]\n;b:#\t";
	char t[16];
	int n = hx_choose(HX_T(7, 8), "length");
	for (int i = 0; i < n; i++) t[i] = A[hx_choose(n < 7 ? 11 : 7, "character")];
	t[n] = 0;
	bad = -1;
	rd(t, n < 5);
}
static void rdlines(void)
{	/* sequences of whole lines, one of them rejected by the handler */
	static const char* LN[] = { "[s]\n", "k=v\n", " more\n", "\n", "; c\n", "[bad\n", "name\n", "k = v ; c\n", "  x = y\n", "[s] ; c\n", "k:v\r\n", "\tm ; c\r\n", "=v\n", "#k=v\n", "\xef\xbb\xbfq=v\n", "k;=v\n" };
	char t[200] = "";
	if (hx_choose(2, "bom")) strcpy(t, "\xef\xbb\xbf");
	int n = 1 + hx_choose(HX_T(4, 5), "lines");
	bad = hx_choose(HX_T(3, 4), "rejected call") - 1;
	for (int i = 0; i < n; i++) strcat(t, LN[hx_choose(n > 3 ? 9 : 16, "line")]);
	if (hx_choose(2, "last newline")) t[strlen(t) - 1] = 0;
	rd(t, 1);
}
static void rdlong(void)
{	/* lines up to the documented limit (3 less than INI_MAX_LINE); longer ones: nothing breaks */
	char t[INI_MAX_LINE + 600];
	int l = 170 + hx_choose(INI_MAX_LINE - 140, "line length"), form = hx_choose(5, "form");
	memset(t, 'x', sizeof t);
	int p = 0;
	static const int EQ[] = { 1, 48, 49, 50, 51, 120 };
	if (form == 0) t[EQ[hx_choose(6, "name length")]] = '=';
	else if (form == 1) t[0] = '[', t[EQ[hx_choose(6, "name length")] + 1] = ']', memset(t + EQ[5] + 2, ' ', 60);
	else if (form == 2) t[0] = ';';
	else if (form == 3) t[0] = 'k', t[1] = '=', t[2] = 'v', t[3] = ' ', t[4] = ';';
	else memcpy(t, "k=1\n ", 5), p = 4;
	l += p;
	int crlf = hx_choose(2, "crlf");
	if (crlf) t[l++] = '\r';
	strcpy(t + l, "\nb=2\n");
	if (form == 1)
	{	/* nothing but blanks after the bracket */
		char* e = strchr(t, ']');
		for (char* q = e + 1; *q != '\r' && *q != '\n'; q++) *q = ' ';
	}
	bad = l - p + 1 < INI_MAX_LINE ? hx_choose(3, "rejected call") - 1 : -1;
	if (l - p + 1 < INI_MAX_LINE) rd(t, 1);
	else
	{
		char* h = malloc(strlen(t) + 1);
		strcpy(h, t);
		ngot = 0;
		ini_reader_parse_string(h, rd_cb, &usr);
		free(h);
		sq_check_leaks("leak");
		HX_CHECK(ngot > 0 && !strcmp(got[ngot - 1].n, "b") && !strcmp(got[ngot - 1].v, "2"), "reader-after-long", "the line after an overlong one is lost");
		memset(got, 0, sizeof got);
	}
}
static int bgn, bgrej, bgbad;
static int bg_cb(void* u, const char* s, const char* n, const char* v LNO)
{
	if (!n) return 1;
	char a[30], b[30], c[30];
	sprintf(a, "s%d", bgn / 100), sprintf(b, "k%d", bgn), sprintf(c, "v%d", bgn * 7);
	if (u != &bgn || strcmp(s, a) || strcmp(n, b) || strcmp(v, c)) bgbad++;
	HX_CHECK(!bgbad, "reader-call", "call %d is [%s] %s = %s", bgn, s, n, v);
	return bgn++ != bgrej;
}
static void rdscale(void)
{	/* many lines: every entry, and the number of the first rejected line */
	static const int C[] = { 127, 128, 255, 256, 257, 1000, 32766, 32768, 65535, 65537, 100000 };
	int n = C[hx_choose(11, "lines")], rej = hx_choose(3, "rejected"), file = hx_choose(2, "file");
	char* t = malloc((size_t)n * 40), *p = t;
	int line = 0, want = 0;
	bgn = 0, bgbad = 0, bgrej = rej ? rej == 1 ? n - 1 : n / 2 : -1;
	for (int i = 0; i < n; i++)
	{
		if (i % 100 == 0) p += sprintf(p, "[s%d]\n", i / 100), line++;
		p += sprintf(p, "k%d = v%d\n", i, i * 7), line++;
		if (i == bgrej) want = line;
	}
	vfs_reset();
	vfs_put("f.ini", t, (size_t)(p - t));
	int r = file ? ini_reader_parse("f.ini", bg_cb, &bgn) : ini_reader_parse_string(t, bg_cb, &bgn);
	free(t);
	HX_CHECK(r == want && (want || bgn == n), "reader-result", "%d lines, line %d rejected: the result is %d after %d calls", line, want, r, bgn);
	HX_CHECK(!vfs_open_files(), "reader-stream", "the file stays open");
	sq_check_leaks("leak");
	hx_state((uint64_t)n * 3 + (uint64_t)rej), hx_trans((uint64_t)bgn), hx_outcome((uint64_t)r);
}
static int failrd;
static void rdfail(void)
{	/* files that cannot be opened or read */
	vfs_reset();
	vfs_put("f.ini", "[s]\na=1\nb=2\n", 12);
	bad = -1;
	failrd = hx_choose(3, "fault");
	ngot = 0;
	int r;
	if (failrd == 0) r = ini_reader_parse("none.ini", rd_cb, &usr);
	else { vfs_fail(failrd == 1 ? 1u << VFS_OPEN : 1u << VFS_READ, 1, failrd == 1 ? VFS_ERROR : VFS_SHORT, hx_choose(2, "lasting")); r = ini_reader_parse("f.ini", rd_cb, &usr); }
	if (failrd < 2) HX_CHECK(r == -1 && ngot == 0, "reader-open", "a file that cannot be opened gives %d", r);
	else { HX_CHECK(r == 0 && ngot == 2 + INI_CALL_HANDLER_ON_NEW_SECTION, "reader-short", "short reads lose lines: %d calls", ngot); }
	HX_CHECK(!vfs_open_files(), "reader-stream", "the file stays open");
	sq_check_leaks("leak");
}

const hx_scn_t hx_scenarios[] = {
#if PART == 1
	{ "arguments", args, 0, 0, "missing and empty arguments" },
	{ "words", words, 0, 0, "boolean words" },
	{ "numbers", nums, 0, 0, "integer texts at every limit" },
	{ "doubles", dbls, 0, 0, "floating point texts" },
	{ "wide", wide, 0, 0, "stated sizes around 2^16, 2^31 and 2^32 of destinations that are much larger than needed" },
	{ "paths", ispath, 0, 0, "all texts up to 5 characters over 7" },
	{ "lengths", lens, 0, 0, "names and values of every critical length" },
	{ "scale", scalef01, 0, 0, "thousands of sections and entries" },
	{ "history", hist, 0, 0, "every sequence of put, delete key, delete section" },
	{ "deep-history", deep, 0, 0, "longer sequences over two sections" },
#elif PART == 2
	{ "entries", rthist, 0, 0, "sequences of puts and deletes, dumped, saved and read back" },
	{ "lengths", rtlen, 0, 0, "every section length, critical key and value lengths" },
	{ "scale", scalef02, 0, 0, "thousands of sections and entries, dumped, saved and read back" },
	{ "texts", rttext, 0, 0, "all texts up to the bound" },
#elif PART == 3
	{ "no-memory-history", oomhist, 0, 0, "operation sequences, one allocation fails" },
	{ "no-memory", oomtext, 0, 0, "every allocation of parse, dump, save" },
	{ "io-faults", iofault, 0, 0, "every file access of save and parse fails or is short" },
#else
	{ "failing-file", rdfail, 0, 0, "files that cannot be opened or give short reads" },
#if !INI_USE_STACK
	{ "no-memory", rdoom, 0, 0, "every allocation of the line buffer fails" },
#endif
	{ "scale", rdscale, 0, 0, "texts of up to 100000 lines, one rejected" },
	{ "long-lines", rdlong, 0, 0, "line lengths around the limits" },
	{ "lines", rdlines, 0, 0, "sequences of lines, one rejected" },
	{ "texts", rdtexts, 0, 0, "all texts over 11 characters" },
#endif
};
const int hx_n_scenarios = sizeof hx_scenarios / sizeof *hx_scenarios;
