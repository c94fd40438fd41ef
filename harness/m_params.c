/* M06 (PART 6): str_params is a text dictionary. M07 (PART 7): it survives running out of memory. */
#include "seq.h"
#define SCALE_ROOM
#include "scale.h"
#include <errno.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include "mem/str_params.h"
#include "log/xlog.h"
/* what an earlier failure of something else left in errno is nobody's business */
static str_params_ptr dirty(str_params_ptr p) { errno = ERANGE; return p; }
#define MK 24
static struct { char k[24], v[64]; } W[MK];
static int nw;
static uint64_t obs;
static int find(const char* k) { for (int i = 0; i < nw; i++) if (!strcmp(W[i].k, k)) return i; return -1; }
static void wput(const char* k, const char* v) { int i = find(k); if (i < 0) { i = nw++; strcpy(W[i].k, k); } strcpy(W[i].v, v); }
static void wdel(const char* k) { int i = find(k); if (i >= 0) W[i] = W[--nw]; }
static void wparse(const char* s, char d)
{
	while (*s)
	{
		while (*s == d) s++;
		size_t n = 0;
		while (s[n] && s[n] != d) n++;
		if (!n) break;
		char tok[128];
		memcpy(tok, s, n), tok[n] = 0;
		s += n;
		char* eq = strchr(tok, '=');
		if (eq == tok) continue;
		if (eq) *eq = 0;
		wput(tok, eq ? eq + 1 : "");
	}
}
/* the map is exactly W for every key anyone may ask for */
static void same(str_params_ptr p, const char* const* keys, int nk)
{
	for (int i = 0; i < nk; i++)
	{
		int w = find(keys[i]);
		HX_CHECK(str_params_has_key(p, keys[i]) == (w >= 0), "has-key", "key '%s': has_key says %d", keys[i], str_params_has_key(p, keys[i]));
		char buf[128];
		memset(buf, '#', sizeof buf);
		int r = str_params_get_str(p, keys[i], buf, sizeof buf);
		if (w < 0)
		{
			HX_CHECK(r == -ENOENT && buf[0] == '#', "get-missing", "a missing key '%s' gives %d", keys[i], r);
			long l = 77;
			double d = 77;
			int n = 77;
			float f = 77;
			HX_CHECK(str_params_get_long(dirty(p), keys[i], &l) == -ENOENT && str_params_get_int(dirty(p), keys[i], &n) == -ENOENT && str_params_get_double(dirty(p), keys[i], &d) == -ENOENT && str_params_get_float(dirty(p), keys[i], &f) == -ENOENT && l == 77 && n == 77 && d == 77 && f == 77, "get-missing", "a missing key gives a number");
			continue;
		}
		HX_CHECK(r >= 0 && !strcmp(buf, W[w].v), "get", "key '%s' gives %d '%s' instead of '%s'", keys[i], r, r >= 0 ? buf : "", W[w].v);
		size_t n = strlen(W[w].v);
		char* ex = malloc(n + 1);
		HX_CHECK(str_params_get_str(p, keys[i], ex, n + 1) >= 0 && !strcmp(ex, W[w].v), "get-exact", "a buffer of the exact size is refused");
		free(ex);
		ex = malloc(n ? n : 1);
		*ex = '#';
		HX_CHECK(str_params_get_str(p, keys[i], ex, n) < 0 && *ex == '#', "get-short", "a buffer that is too short is used");
		free(ex);
	}
	hx_trans(1);
	uint64_t h = 0;
	for (int i = 0; i < nw; i++) h += hx_hash(hx_hash(1, W[i].k, strlen(W[i].k)), W[i].v, strlen(W[i].v));
	hx_state(h);
	obs = hx_mix(obs, h);
}
/* the text form has every pair once */
static void textform(str_params_ptr p, char d)
{
	char* s = str_params_to_str(p);
	HX_CHECK(s, "to-str", "no text form");
	size_t want = 0;
	for (int i = 0; i < nw; i++) want += strlen(W[i].k) + 1 + strlen(W[i].v) + (i > 0);
	HX_CHECK(strlen(s) == want, "to-str", "the text form '%s' has %zu characters instead of %zu", s, strlen(s), want);
	bool seen[MK] = { 0 };
	for (char* q = s; *q;)
	{
		char* e = strchr(q, d);
		if (!e) e = q + strlen(q);
		bool ok = false;
		for (int i = 0; i < nw && !ok; i++)
		{
			char pair[128];
			snprintf(pair, sizeof pair, "%s=%s", W[i].k, W[i].v);
			if (!seen[i] && strlen(pair) == (size_t)(e - q) && !strncmp(q, pair, strlen(pair))) seen[i] = ok = true;
		}
		HX_CHECK(ok, "to-str", "the text form '%s' has a pair that is not in the map", s);
		q = *e ? e + 1 : e;
	}
	sq_free(s);
}
static const char* const K[] = { "a", "b", "ab", "ba", "aa", "bb", "c" };
#if PART == 6
static void text(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	nw = 0, obs = 0;
	char s[16];
	static const char al[] = "ab=;";
	int n = hx_choose(HX_T(8, 10), "length");
	for (int i = 0; i < n; i++) s[i] = al[hx_choose(4, "char")];
	s[n] = 0;
	int dl = hx_choose(2, "delimiter");     /* 0: default, 1: 'b' */
	char* h = malloc((size_t)n + 1);
	strcpy(h, s);
	errno = ENOMEM;   /* left over from something else: nobody's business */
	str_params_ptr p = str_params_create_str(dl ? "b" : NULL, h);
	HX_CHECK(p, "create", "parsing '%s' fails", s);
	HX_CHECK(!strcmp(h, s), "source", "the parsed text was changed");
	free(h);
	wparse(s, dl ? 'b' : ';');
	/* keys that occur in the text */
	char kk[10][16];
	const char* ks[10];
	int nk = 0;
	for (int i = 0; i < nw && nk < 10; i++) { strcpy(kk[nk], W[i].k); ks[nk] = kk[nk]; nk++; }
	same(p, K, 7);
	same(p, ks, nk);
	textform(p, dl ? 'b' : ';');
	/* parse what was printed: the same again */
	char* t = str_params_to_str(p);
	str_params_ptr q = str_params_create_str(dl ? "b" : ";", t);
	sq_free(t);
	HX_CHECK(q, "create", "parsing the text form fails");
	same(q, K, 7);
	same(q, ks, nk);
	textform(q, dl ? 'b' : ';');
	str_params_destroy(p);
	str_params_destroy(q);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void hist(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	nw = 0, obs = 0;
	static const char* const V[] = { "", "7", "x=y", "a longer value than before" };
	str_params_ptr p = str_params_create(hx_choose(2, "delimiter") ? "," : NULL);
	HX_CHECK(p, "create", "creation failed");
	char d = ';';
	{ str_params_add_str(p, "a", ""); str_params_add_str(p, "b", ""); char* t = str_params_to_str(p); d = t[2]; sq_free(t); str_params_del(p, "a"); str_params_del(p, "b"); }
	for (int i = 0; i < HX_T(4, 5); i++)
	{
		int o = hx_choose(6, "operation"), k = hx_choose(HX_T(3, 4), "key");
		char ko[16];
		strcpy(ko, K[k]);
		if (o < 4)
		{
			char vo[64];
			strcpy(vo, V[o]);
			errno = i % 2 ? ENOMEM : ERANGE;                    /* left over from something else */
			int r = str_params_add_str(p, ko, vo);
			errno = 0;
			memset(vo, 'Z', sizeof vo - 1);                   /* the map has its own copy */
			HX_CHECK(r == 0, "add", "adding gives %d", r);
			wput(K[k], V[o]);
		}
		else if (o == 4) { HX_CHECK(str_params_add_int(p, ko, -k * 1000) == 0, "add", "adding a number fails"); char b[16]; sprintf(b, "%d", -k * 1000); wput(K[k], b); }
		else { str_params_del(p, ko); wdel(K[k]); }
		memset(ko, 'Z', sizeof ko - 1);
		same(p, K, 7);
		textform(p, d);
	}
	str_params_dump(p);
	same(p, K, 7);
	str_params_destroy(p);
	str_params_destroy(NULL);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void numbers(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	str_params_ptr p = str_params_create(NULL);
	int kind = hx_choose(4, "kind");
	if (kind == 0)
	{
		int b = hx_choose(64, "bit"), off = hx_choose(3, "offset") - 1, neg = hx_choose(2, "sign");
		long v = (long)((1ul << b) + (unsigned long)off);
		if (neg) v = (long)(0 - (unsigned long)v);
		HX_CHECK(str_params_add_long(p, "n", v) == 0, "add-long", "adding %ld fails", v);
		long g = 0;
		int gi = 77;
		HX_CHECK(str_params_get_long(dirty(p), "n", &g) == 0 && g == v, "long", "%ld is stored, %ld comes back", v, g);
		int r = str_params_get_int(dirty(p), "n", &gi);
		if (v >= INT_MIN && v <= INT_MAX)
		{
			HX_CHECK(r == 0 && gi == v, "int", "%ld is stored, %d comes back", v, gi);
			HX_CHECK(str_params_add_int(p, "i", (int)v) == 0 && str_params_get_int(dirty(p), "i", &gi) == 0 && gi == v, "int", "%ld is stored as int, %d comes back", v, gi);
		}
		else HX_CHECK(r < 0 && gi == 77, "int-range", "%ld, which is no int, is delivered as %d", v, gi);
		hx_outcome((uint64_t)v);
	}
	else if (kind == 1)
	{
		int e = hx_choose(HX_T(80, 308 * 2), "exponent") - HX_T(30, 308), m = hx_choose(3, "mantissa"), neg = hx_choose(2, "sign");
		if (!hx_tier && e > 40) e = 40 + (e - 40) * 30;
		if (e > 308) e = 308;
		double v = (m == 0 ? 1.0 : m == 1 ? 1.7 : 9.0 / 7) * pow(10, e) * (neg ? -1 : 1), g = 0;
		HX_CHECK(str_params_add_double(p, "d", v) == 0, "add-double", "adding %g fails", v);
		HX_CHECK(str_params_get_double(dirty(p), "d", &g) == 0 && fabs(g - v) <= 1e-10 + fabs(v) * 1e-14, "double", "%.17g is stored, %.17g comes back", v, g);
		if (fabs(v) < FLT_MAX / 2)
		{
			float f = 0;
			HX_CHECK(str_params_add_float(p, "f", (float)v) == 0 && str_params_get_float(dirty(p), "f", &f) == 0 && fabs((double)f - (double)(float)v) <= 1e-10 + fabs(v) * 1e-6, "float", "%g is stored, %g comes back", v, (double)f);
		}
		hx_outcome(hx_hash(1, &v, sizeof v));
	}
	else
	{
		static const struct { const char* t; int ok; long v; } T[] = {
			{ "0", 1, 0 }, { "-1", 1, -1 }, { "0x1F", 1, 31 }, { "0X1f", 1, 31 }, { "-0X10", 1, -16 }, { "", 0, 0 }, { "x", 0, 0 }, { "12x", 0, 0 }, { "1 ", 0, 0 }, { "-", 0, 0 }, { "0x", 0, 0 },
			{ "9223372036854775807", 1, LONG_MAX }, { "-9223372036854775808", 1, LONG_MIN }, { "9223372036854775808", 0, 0 }, { "-9223372036854775809", 0, 0 }, { "99999999999999999999999", 0, 0 }, { "+5", 1, 5 } };
		static const struct { const char* t; int ok; double v; } D[] = {
			{ "0", 1, 0 }, { "-1.5", 1, -1.5 }, { "1e3", 1, 1000 }, { "", 0, 0 }, { "abc", 0, 0 }, { "1.5x", 0, 0 }, { "1.5 ", 0, 0 }, { ".", 0, 0 }, { ".5", 1, 0.5 }, { "123.456", 1, 123.456 } };
		if (kind == 2)
		{
			int i = hx_choose(15, "text");
			long v = 77;
			str_params_add_str(p, "n", T[i].t);
			int r = str_params_get_long(dirty(p), "n", &v);
			HX_CHECK(T[i].ok ? r == 0 && v == T[i].v : r < 0 && v == 77, "long-text", "'%s' as a number gives %d, %ld", T[i].t, r, v);
			hx_outcome((uint64_t)i);
		}
		else
		{
			int i = hx_choose(10, "text");
			double v = 77;
			float f = 77;
			str_params_add_str(p, "n", D[i].t);
			int r = str_params_get_double(dirty(p), "n", &v);
			HX_CHECK(D[i].ok ? r == 0 && v == D[i].v : r < 0 && v == 77, "double-text", "'%s' as a number gives %d, %g", D[i].t, r, v);
			r = str_params_get_float(dirty(p), "n", &f);
			HX_CHECK(D[i].ok ? r == 0 && f == (float)D[i].v : r < 0 && f == 77, "float-text", "'%s' as a number gives %d, %g", D[i].t, r, (double)f);
			hx_outcome((uint64_t)i + 50);
		}
	}
	hx_trans(1);
	hx_state(hx_mix(3, (uint64_t)kind));
	str_params_destroy(p);
	sq_check_leaks("leak");
}
/* enough keys to make the map grow */
static void many(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	str_params_ptr p = str_params_create(";");
	int n = hx_choose(60, "pairs"), rep = hx_choose(2, "replace");
	for (int pass = 0; pass <= rep; pass++)
		for (int i = 0; i < n; i++) { char k[16]; sprintf(k, "key%d", i); HX_CHECK(str_params_add_int(p, k, i + pass) == 0, "add", "add"); }
	for (int pass = 0; pass < 2; pass++)
	{
		for (int i = 0; i < n; i++) { char k[16]; int v; sprintf(k, "key%d", i); HX_CHECK(str_params_get_int(dirty(p), k, &v) == 0 && v == i + rep, "get", "%s of %d is lost", k, n); }
		char* t = str_params_to_str(p);
		str_params_destroy(p);
		p = str_params_create_str(";", t);
		sq_free(t);
	}
	str_params_destroy(p);
	sq_check_leaks("leak");
	hx_outcome((uint64_t)n);
	hx_state((uint64_t)n);
	hx_trans((uint64_t)n);
}
/* long keys and values, and thousands of pairs */
static char* ltext(size_t n, unsigned salt)
{
	char* t = malloc(n + 1);
	for (size_t i = 0; i < n; i++) t[i] = (char)('A' + (pat(i + salt) & 31) % 26 + (i & 32));
	t[n] = 0;
	return t;
}
static void holds(str_params_ptr p, const char* k, const char* v)
{
	size_t n = strlen(v);
	char* b = malloc(n + 1);
	HX_CHECK(str_params_has_key(p, k), "has-key", "a key of %zu characters is missing", strlen(k));
	HX_CHECK(str_params_get_str(p, k, b, n) < 0, "get-short", "a value of %zu characters is delivered into %zu bytes", n, n);
	HX_CHECK(str_params_get_str(p, k, b, n + 1) >= 0 && !strcmp(b, v), "get", "a value of %zu characters (key of %zu) comes back wrong", n, strlen(k));
	free(b);
}
static void longer(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	size_t kn = scale_n[hx_choose(NSCALE, "key length")], vn = scale_n[hx_choose(NSCALE, "value length")];
	char *k = ltext(kn, 1), *v = ltext(vn, 7), *k2 = ltext(kn, 1);
	k2[kn - 1] ^= 1;                                   /* differs in the last character only */
	str_params_ptr p = str_params_create(";");
	HX_CHECK(str_params_add_str(p, k, v) == 0, "add", "adding %zu=%zu characters fails", kn, vn);
	holds(p, k, v);
	HX_CHECK(!str_params_has_key(p, k2), "has-key", "a key that differs in its last character (%zu) is found", kn);
	HX_CHECK(str_params_add_str(p, k2, "2") == 0, "add", "adding a second long key fails");
	holds(p, k2, "2"), holds(p, k, v);
	char* t = str_params_to_str(p);
	HX_CHECK(t && strlen(t) == 2 * kn + vn + 4, "to-str", "the text form has %zu characters", t ? strlen(t) : 0);
	str_params_destroy(p);
	p = str_params_create_str(";", t);
	sq_free(t);
	HX_CHECK(p, "create", "parsing fails");
	holds(p, k, v), holds(p, k2, "2");
	str_params_del(p, k);
	HX_CHECK(!str_params_has_key(p, k), "has-key", "a deleted long key is still there");
	holds(p, k2, "2");
	str_params_destroy(p);
	free(k), free(v), free(k2);
	sq_check_leaks("leak");
	hx_outcome(kn << 32 | vn), hx_state(kn << 32 | vn), hx_trans(8);
}
static void thousands(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	static const int ns[] = { 255, 256, 257, 1000, 4097, 10000 };
	int n = ns[hx_choose(6, "pairs")], stride = 1 + hx_choose(4, "deleted");
	str_params_ptr p = str_params_create(";");
	for (int i = 0; i < n; i++) { char k[16]; sprintf(k, "k%d", i); HX_CHECK(str_params_add_int(p, k, i * 7 - 9) == 0, "add", "pair %d", i); }
	char* t = str_params_to_str(p);
	str_params_destroy(p);
	p = str_params_create_str(";", t);
	sq_free(t);
	for (int i = 0; i < n; i++) { char k[16]; int v = 0; sprintf(k, "k%d", i); HX_CHECK(str_params_get_int(dirty(p), k, &v) == 0 && v == i * 7 - 9, "get", "pair %d of %d is wrong after printing and parsing", i, n); }
	for (int i = 0; i < n; i += stride) { char k[16]; sprintf(k, "k%d", i); str_params_del(p, k); }
	for (int i = 0; i < n; i++)
	{
		char k[16];
		int v = 0;
		sprintf(k, "k%d", i);
		int r = str_params_get_int(dirty(p), k, &v);
		HX_CHECK(i % stride ? r == 0 && v == i * 7 - 9 : r == -ENOENT, "del", "pair %d of %d after deleting every %d", i, n, stride);
	}
	str_params_destroy(p);
	sq_check_leaks("leak");
	hx_outcome((uint64_t)(n * 8 + stride)), hx_state((uint64_t)(n * 8 + stride)), hx_trans((uint64_t)n);
}
/* destinations that are much larger than what goes into them */
static void wide(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	char* d = room();
	str_params_ptr p = str_params_create_str(";", "k=some value;e=");
	for (int k = 0; k < NROOM; k++)
	{
		size_t n = room_n[k];
		memset(d, 'z', 100);
		int r = str_params_get_str(p, "k", d, n);
		HX_CHECK(r >= 0 && !strcmp(d, "some value"), "get-room", "a value into %zu bytes gives %d, '%.20s'", n, r, d);
		r = str_params_get_str(p, "e", d, n);
		HX_CHECK(r >= 0 && !*d, "get-room", "an empty value into %zu bytes gives %d, '%.20s'", n, r, d);
		hx_eval(1), hx_trans(2), hx_state((uint64_t)k);
	}
	str_params_destroy(p);
	hx_outcome(1);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "wide", wide, 0, 0, "stated sizes around 2^16, 2^31 and 2^32 of destinations that are much larger than needed" },
	{ "scale", longer, 0, 0, "keys and values of 255 .. 131073 characters" },
	{ "thousands", thousands, 0, 0, "255 .. 10000 pairs, printed, parsed, every 1st..4th deleted" },
	{ "numbers", numbers, 0, 0, "every power of two +-1, a grid of doubles, well- and malformed number texts" },
	{ "many", many, 0, 0, "0..59 pairs, replaced or not" },
	{ "text", text, 0, 0, "every text over {a, b, =, ;} up to the bound, two delimiters, parsed, printed and parsed again" },
	{ "history", hist, 0, 0, "every sequence of adds, replacements and deletions" },
};
const int hx_n_scenarios = 7;
#else
static const char* const SRC[] = { "a=1;b=2", "a=1;a=2;a=3", "a;b=;c=x", "a=1;b=2;ab=3;ba=4;aa=5;bb=6;c=7;d=8;e=9;f=10;g=11;h=12;i=13;j=14", "" };
static void create(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	nw = 0, obs = 0;
	const char* s = SRC[hx_choose(5, "text")];
	int k = 1 + hx_choose(60, "failing allocation");
	sq_fail_alloc(k, hx_choose(2, "sticky"));
	bool from = hx_choose(2, "from text");
	errno = ENOMEM;
	str_params_ptr p = from ? str_params_create_str(";", s) : str_params_create(";");
	int fired = sq_alloc_fired(), asked = sq_allocs();
	sq_fail_alloc(0, false);
	if (k > asked) hx_prune();
	if (p)
	{	/* what did not fit may not be lost silently, unless it was never needed */
		if (from) wparse(s, ';');
		same(p, K, 7);
		textform(p, ';');
	}
	else HX_CHECK(fired, "create", "creation fails without a reason");
	str_params_destroy(p);
	sq_check_leaks("leak");
	hx_outcome(hx_mix((uint64_t)k, p != NULL));
}
static void ops(void)
{
	xlog_set_min_level(LOG_LEVEL_OFF);
	nw = 0, obs = 0;
	str_params_ptr p = str_params_create(";");
	int pre = hx_choose(20, "pairs");
	for (int i = 0; i < pre; i++) { char k[8]; sprintf(k, i ? "k%d" : "a", i); HX_CHECK(str_params_add_str(p, k, "v") == 0, "add", "add"); wput(k, "v"); }
	static const char* const KK[] = { "a", "b", "k1", "k2", "k7", "k11", "k12", "k13", "k18", "k19" };
	for (int i = 0; i < HX_T(2, 3); i++)
	{
		int o = hx_choose(5, "operation"), k = 1 + hx_choose(4, "failing allocation"), st = hx_choose(2, "sticky");
		sq_fail_alloc(k, st);
		int r = 0;
		char* t = NULL;
		errno = ENOMEM;
		switch (o)
		{
		case 0: r = str_params_add_str(p, "a", "new"); break;
		case 1: r = str_params_add_str(p, "b", "fresh"); break;
		case 2: r = str_params_add_int(p, "b", 5); break;
		case 3: t = str_params_to_str(p); break;
		default: str_params_del(p, "a"); break;
		}
		int e = errno, fired = sq_alloc_fired();
		sq_fail_alloc(0, false);
		if (o == 3)
		{
			HX_CHECK(fired || t, "to-str", "no text");
			if (t) { HX_CHECK(!fired || nw == 0 || *t, "to-str-oom", "the text form of %d pairs is empty when memory runs out", nw); sq_free(t); if (!fired) textform(p, ';'); }
		}
		else if (o == 4) wdel("a");
		else
		{
			HX_CHECK(r <= 0 && (r == 0 || fired), "add", "adding gives %d without a reason", r);
			HX_CHECK(e == ENOMEM, "errno", "errno is changed");
			if (r == 0) wput(o == 0 ? "a" : "b", o == 0 ? "new" : o == 1 ? "fresh" : "5");
		}
		same(p, KK, 10);
		textform(p, ';');
	}
	str_params_destroy(p);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
const hx_scn_t hx_scenarios[] = {
	{ "create", create, 0, 0, "five texts, every single allocation (or every one from it on) failing" },
	{ "operations", ops, 0, 0, "0..19 pairs, every sequence of operations with every allocation failing" },
};
const int hx_n_scenarios = 2;
#endif
