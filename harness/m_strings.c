/* M04: string helpers match their reference for every small input and never overrun. */
#include "seq.h"
#define SCALE_ROOM
#include "scale.h"
#include <ctype.h>
#include <wchar.h>
#include "mem/strings.h"
#include "mem/asprintf.h"
static uint64_t obs;
/* every text of up to max characters over an alphabet */
static int text(char* o, const char* alpha, int max, const char* what)
{
	int k = (int)strlen(alpha), n = hx_choose(max + 1, what);
	for (int i = 0; i < n; i++) o[i] = alpha[hx_choose(k, "char")];
	o[n] = 0;
	return n;
}
/* heap copy with nothing after the terminator */
static char* dup(const char* s) { size_t n = strlen(s) + 1; return memcpy(malloc(n), s, n); }
static void fin(const void* p, size_t n, uint64_t r) { obs = hx_hash(r, p, n); hx_outcome(obs); hx_state(obs); hx_trans(1); }

static void cpycat(void)
{
	int sl = hx_choose(HX_T(9, 20), "source length"), size = hx_choose(HX_T(12, 24), "size"), dl = hx_choose(HX_T(9, 20), "destination length");
	char* src = malloc((size_t)sl + 1);
	for (int i = 0; i < sl; i++) src[i] = (char)('a' + i);
	src[sl] = 0;
	char* d = malloc(size ? (size_t)size : 1);
	memset(d, '#', size ? (size_t)size : 1);
	size_t r = strlcpy(d, src, (size_t)size);
	HX_CHECK(r == (size_t)sl, "strlcpy-result", "copying %d into %d gives %zu", sl, size, r);
	int k = sl < size - 1 ? sl : size - 1;
	if (size) HX_CHECK(!memcmp(d, src, (size_t)k) && d[k] == 0, "strlcpy-data", "copying %d characters into %d bytes gives '%.*s'", sl, size, size, d);
	else HX_CHECK(d[0] == '#', "strlcpy-data", "copying into 0 bytes writes");
	for (int i = k + 1; i < size; i++) HX_CHECK(d[i] == '#', "strlcpy-beyond", "byte %d behind the terminator is written", i);
	/* strlcat */
	memset(d, '#', size ? (size_t)size : 1);
	bool term = dl < size;
	for (int i = 0; i < dl && i < size; i++) d[i] = (char)('A' + i);
	if (term) d[dl] = 0;
	r = strlcat(d, src, (size_t)size);
	int m = dl < size ? dl : size;
	HX_CHECK(r == (size_t)(sl + m), "strlcat-result", "appending %d to %d in %d gives %zu instead of %d", sl, dl, size, r, sl + m);
	for (int i = 0; i < m; i++) HX_CHECK(d[i] == 'A' + i, "strlcat-data", "what was there has changed");
	if (term)
	{
		int a = sl < size - 1 - dl ? sl : size - 1 - dl;
		HX_CHECK(!memcmp(d + dl, src, (size_t)a) && d[dl + a] == 0, "strlcat-data", "appending %d characters to %d in %d bytes is wrong", sl, dl, size);
		for (int i = dl + a + 1; i < size; i++) HX_CHECK(d[i] == '#', "strlcat-beyond", "byte %d behind the terminator is written", i);
	}
	fin(d, (size_t)size, r);
	free(d), free(src);
}
static void replace(void)
{
	char o[16], p[8], r[8], want[128] = "";
	text(o, "ab", HX_T(7, 9), "original");
	text(p, "ab", 3, "pattern");
	text(r, "bc", HX_T(3, 4), "replacement");
	char *ho = dup(o), *hp = dup(p), *hr = dup(r);
	int pl = (int)strlen(p), w = 0;
	for (int i = 0; o[i];)
		if (pl && !strncmp(o + i, p, (size_t)pl)) { w += sprintf(want + w, "%s", r); i += pl; }
		else want[w++] = o[i++];
	want[w] = 0;
	hx_log("replace '%s' in '%s' by '%s'", p, o, r);
	char* g = strreplace(ho, hp, hr);
	HX_CHECK(g && !strcmp(g, want), "replace", "replacing '%s' by '%s' in '%s' gives '%s' instead of '%s'", p, r, o, g ? g : "(null)", want);
	HX_CHECK(!strcmp(ho, o) && !strcmp(hp, p) && !strcmp(hr, r), "replace-args", "an argument has changed");
	fin(g, (size_t)w, 1);
	sq_free(g);
	sq_check_leaks("leak");
	sq_fail_alloc(1, true);
	g = strreplace(ho, hp, hr);
	HX_CHECK(!g, "replace-oom", "without memory a text is returned");
	free(ho), free(hp), free(hr);
}
static void split(void)
{
	char s[16];
	static const char* dl[] = { ",", ",;", "x", ";x" };
	int n = text(s, ",;xy", HX_T(6, 8), "text");
	const char* d = dl[hx_choose(4, "delimiters")];
	size_t cap = (size_t)hx_choose(6, "capacity"), got = cap;
	char* h = dup(s);
	char** out = malloc(cap ? cap * sizeof *out : 1);
	strsplit(out, &got, h, d);
	int st[16], en[16], k = 0;
	for (int i = 0; i < n;)
	{
		if (strchr(d, s[i])) { i++; continue; }
		st[k] = i;
		while (i < n && !strchr(d, s[i])) i++;
		en[k++] = i;
	}
	size_t want = (size_t)k < cap ? (size_t)k : cap;
	HX_CHECK(got == want, "split-count", "splitting '%s' at '%s' with room for %zu gives %zu parts instead of %zu", s, d, cap, got, want);
	for (size_t i = 0; i < got; i++)
		HX_CHECK(out[i] == h + st[i] && strlen(out[i]) == (size_t)(en[i] - st[i]) && !strncmp(out[i], s + st[i], (size_t)(en[i] - st[i])), "split-part", "part %zu of '%s' split at '%s' is '%s'", i, s, d, out[i]);
	fin(s, (size_t)n, got);
	free(out), free(h);
}
static void trim(void)
{
	char s[16];
	static const char* cs[] = { " ", " ;", "", "x ", "; x" };
	int n = text(s, " ;xy", HX_T(6, 8), "text");
	const char* c = cs[hx_choose(5, "set")];
	char* h = dup(s);
	int a = 0, b = n;
	while (a < b && strchr(c, s[a])) a++;
	while (b > a && strchr(c, s[b - 1])) b--;
	strtrim(h, c);
	HX_CHECK(strlen(h) == (size_t)(b - a) && !strncmp(h, s + a, (size_t)(b - a)), "trim", "trimming '%s' of '%s' gives '%s'", s, c, h);
	fin(h, strlen(h), (uint64_t)n);
	free(h);
	/* case macros */
	h = dup(s);
	STRING2UPPER(h);
	for (int i = 0; i < n; i++) HX_CHECK(h[i] == toupper(s[i]), "upper", "'%s' in upper case is '%s'", s, h);
	STRING2LOWER(h);
	HX_CHECK(!strcmp(h, s), "lower", "'%s' in lower case is '%s'", s, h);
	free(h);
}
/* every code point there is, between two others */
static void points(void)
{
	int plane = hx_choose(17, "plane");
	for (unsigned c = (unsigned)plane << 16; c < ((unsigned)plane + 1) << 16; c++)
	{
		unsigned char b[8], *q = b;
		if (!c || (c >= 0xd800 && c < 0xe000)) continue;
		*q++ = 'x';
		if (c < 0x80) *q++ = (unsigned char)c;
		else if (c < 0x800) *q++ = (unsigned char)(0xc0 | c >> 6), *q++ = (unsigned char)(0x80 | (c & 63));
		else if (c < 0x10000) *q++ = (unsigned char)(0xe0 | c >> 12), *q++ = (unsigned char)(0x80 | ((c >> 6) & 63)), *q++ = (unsigned char)(0x80 | (c & 63));
		else *q++ = (unsigned char)(0xf0 | c >> 18), *q++ = (unsigned char)(0x80 | ((c >> 12) & 63)), *q++ = (unsigned char)(0x80 | ((c >> 6) & 63)), *q++ = (unsigned char)(0x80 | (c & 63));
		*q++ = 'y', *q = 0;
		if (strutf8len((char*)b) != 3 || strnutf8len((char*)b, (size_t)(q - b) - 1) != 2 || strnutf8len((char*)b, 7) != 3) hx_fail("utf8-point", "a text with code point U+%04X is counted as %zu, without the last one as %zu", c, strutf8len((char*)b), strnutf8len((char*)b, (size_t)(q - b) - 1));
		hx_eval(1);
	}
	hx_outcome((uint64_t)plane);
}
static void utf8(void)
{
	static const char* cp[] = { "a", "\xC3\xA9", "\xE4\xBD\xA0", "\xF0\x9F\x98\x80", "\x7F", "\xDF\xBF", "\xEF\xBF\xBD", "\xC2\x80" };
	char s[64] = "";
	int cut[16] = { 0 }, n = hx_choose(HX_T(6, 7), "code points");
	for (int i = 0; i < n; i++) { strcat(s, cp[hx_choose(HX_T(5, 8), "code point")]); cut[i + 1] = (int)strlen(s); }
	char* h = dup(s);
	HX_CHECK(strutf8len(h) == (size_t)n, "utf8-length", "%d code points are counted as %zu", n, strutf8len(h));
	for (int i = 0; i <= n; i++) HX_CHECK(strnutf8len(h, (size_t)cut[i]) == (size_t)i, "utf8-length-n", "the first %d bytes have %d code points, %zu are counted", cut[i], i, strnutf8len(h, (size_t)cut[i]));
	HX_CHECK(strnutf8len(h, strlen(s) + 5) == (size_t)n, "utf8-length-n", "a limit beyond the end changes the count");
	/* the limit is a limit: no terminator behind it */
	char* u = malloc(strlen(s) + 1);
	memcpy(u + 1, s, strlen(s));
	HX_CHECK(strnutf8len(u + 1, strlen(s)) == (size_t)n || !*s, "utf8-length-n", "count without terminator");
	fin(s, strlen(s), (uint64_t)n);
	free(u), free(h);
}
static void hex(void)
{
	int n = hx_choose(HX_T(60, 130), "bytes"), cap = 1 + hx_choose(HX_T(200, 420), "capacity"), v = hx_choose(3, "values");
	char* in = malloc(n ? (size_t)n : 1);
	for (int i = 0; i < n; i++) in[i] = (char)(v == 0 ? i : v == 1 ? 255 - i : i * 37 + 120);
	char* out = malloc((size_t)cap);
	memset(out, '#', (size_t)cap);
	size_t r = str_char2hex(out, (size_t)cap, in, (size_t)n);
	HX_CHECK(memchr(out, 0, (size_t)cap), "hex-terminator", "the result of %d bytes in %d is not terminated", n, cap);
	HX_CHECK(r == strlen(out), "hex-length", "%zu is returned for %d bytes in %d, the text has %zu", r, n, cap, strlen(out));
	if (cap >= 3 * n + 1)
	{
		char want[512] = "";
		for (int i = 0; i < n; i++) sprintf(want + 3 * i, " %02x", (unsigned char)in[i]);
		HX_CHECK(!strcmp(out, want), "hex-data", "%d bytes in %d give '%s' instead of '%s'", n, cap, out, want);
	}
	else if (cap >= 64)
	{	/* what is shown of the bytes are the first ones, and as many as there is room for but a few */
		char* t = strchr(out, ':');
		char want[512] = "";
		for (int i = 0; i < n; i++) sprintf(want + 3 * i, " %02x", (unsigned char)in[i]);
		HX_CHECK(t && strlen(t + 1) >= 3 && !strncmp(t + 1, want, strlen(t + 1)), "hex-truncated", "%d bytes in %d give '%s'", n, cap, out);
	}
	fin(out, r, r);
	free(in), free(out);
}
static int vs(const char* f, ...) { va_list ap; va_start(ap, f); int r = vscprintf(f, ap), q = vscprintf(f, ap); va_end(ap); HX_CHECK(r == q, "vscprintf", "the argument list is used up"); return r; }
static void fmt(void)
{
	int n = hx_choose(300, "length");
	char* t = malloc((size_t)n + 1);
	memset(t, 'x', (size_t)n);
	t[n] = 0;
	HX_CHECK(vs("%s", t) == n && vs("%s-%05d", t, 3) == n + 6 && vs("%*s", n, "") == n, "vscprintf", "the length of a formatted text of %d is wrong", n);
	free(t);
	fin(&n, sizeof n, 1);
}
static char* ltext(size_t n, const char* al)
{
	char* t = malloc(n + 1);
	size_t k = strlen(al);
	for (size_t i = 0; i < n; i++) t[i] = al[pat(i) % k];
	t[n] = 0;
	return t;
}
static void scale(void)
{
	size_t n = scale_n[hx_choose(NSCALE, "length")];
	int what = hx_choose(8, "function");
	uint64_t r = 0;
	if (what == 0)
	{	/* copy and append around the size of the destination */
		char *src = ltext(n, "abcdefghijklmnopqrstuvwxyz"), *more = ltext(n / 2, "ABCDEFGH");
		size_t room = n - 2 + (size_t)hx_choose(5, "room");
		char* d = malloc(room);
		r = strlcpy(d, src, room);
		size_t k = n < room - 1 ? n : room - 1;
		HX_CHECK(r == n && !memcmp(d, src, k) && d[k] == 0, "strlcpy-data", "copying %zu characters into %zu bytes gives %zu", n, room, (size_t)r);
		free(d);
		room += n / 2;
		d = malloc(room);
		strcpy(d, src);
		r = strlcat(d, more, room);
		k = n / 2 < room - 1 - n ? n / 2 : room - 1 - n;
		HX_CHECK(r == n + n / 2 && !memcmp(d, src, n) && !memcmp(d + n, more, k) && d[n + k] == 0, "strlcat-data", "appending %zu to %zu characters in %zu bytes gives %zu", n / 2, n, room, (size_t)r);
		free(d), free(src), free(more);
	}
	else if (what == 1)
	{
		static const char* pt[] = { "a", "ab", "ba", "abc", "zz" };
		static const char* rp[] = { "", "b", "xyz", "0123456789" };
		const char *p = pt[hx_choose(5, "pattern")], *q = rp[hx_choose(4, "replacement")];
		char* o = ltext(n, "abc");
		char* want = malloc(n * 10 + 1);
		size_t pl = strlen(p), ql = strlen(q), w = 0;
		for (size_t i = 0; i < n;)
			if (!strncmp(o + i, p, pl)) { memcpy(want + w, q, ql); w += ql; i += pl; }
			else want[w++] = o[i++];
		want[w] = 0;
		char* g = strreplace(o, p, q);
		HX_CHECK(g && !strcmp(g, want), "replace", "replacing '%s' by '%s' in a text of %zu is wrong (%zu instead of %zu characters)", p, q, n, g ? strlen(g) : 0, w);
		r = hx_hash(w, g, w);
		sq_free(g);
		sq_check_leaks("leak");
		free(want), free(o);
	}
	else if (what == 2)
	{
		char* h = ltext(n, "abcdef,;");
		char* s = strdup(h);
		size_t cap = hx_choose(2, "room") ? n : n / 16, got = cap, k = 0;
		char** out = malloc(cap * sizeof *out);
		strsplit(out, &got, h, ",;");
		for (size_t i = 0; i < n;)
		{
			if (strchr(",;", s[i])) { i++; continue; }
			size_t b = i;
			while (i < n && !strchr(",;", s[i])) i++;
			if (k < cap) HX_CHECK(k < got && out[k] == h + b && strlen(out[k]) == i - b && !strncmp(out[k], s + b, i - b), "split-part", "part %zu of a text of %zu is wrong", k, n);
			if (k < cap) k++;
		}
		HX_CHECK(got == k, "split-count", "a text of %zu gives %zu parts instead of %zu", n, got, k);
		r = got;
		free(out), free(h), free(s);
	}
	else if (what == 3)
	{
		int where = hx_choose(4, "where");
		char* h = ltext(n, "xyz");
		size_t a = where & 1 ? n / 3 : 0, b = where & 2 ? n - n / 3 : n;
		for (size_t i = 0; i < n; i++) if (i < a || i >= b) h[i] = " ;"[i & 1];
		char* s = strdup(h);
		strtrim(h, " ;");
		HX_CHECK(strlen(h) == b - a && !strncmp(h, s + a, b - a), "trim", "trimming a text of %zu leaves %zu instead of %zu characters", n, strlen(h), b - a);
		STRING2UPPER(h);
		for (size_t i = 0; i < b - a; i++) HX_CHECK(h[i] == toupper(s[a + i]), "upper", "character %zu", i);
		r = b - a;
		free(h), free(s);
	}
	else if (what == 4)
	{
		char* s = malloc(n * 4 + 1);
		size_t w = 0, half = 0;
		static const char* cp[] = { "a", "\xC3\xA9", "\xE4\xBD\xA0", "\xF0\x9F\x98\x80" };
		for (size_t i = 0; i < n; i++) { const char* c = cp[pat(i) & 3]; if (i == n / 2) half = w; memcpy(s + w, c, strlen(c)); w += strlen(c); }
		s[w] = 0;
		HX_CHECK(strutf8len(s) == n, "utf8-length", "%zu code points are counted as %zu", n, strutf8len(s));
		HX_CHECK(strnutf8len(s, half) == n / 2 && strnutf8len(s, w) == n, "utf8-length-n", "%zu code points are counted as %zu", n / 2, strnutf8len(s, half));
		r = w;
		free(s);
	}
	else if (what == 5)
	{
		char* in = malloc(n);
		patfill(in, 0, n);
		size_t cap = 3 * n + 1;
		char* out = malloc(cap);
		r = str_char2hex(out, cap, in, n);
		HX_CHECK(r == 3 * n && out[r] == 0, "hex-length", "%zu bytes give %zu characters", n, (size_t)r);
		for (size_t i = 0; i < n; i++) { char t[8]; sprintf(t, " %02x", (uint8_t)in[i]); HX_CHECK(!memcmp(out + 3 * i, t, 3), "hex-data", "byte %zu of %zu is '%.3s'", i, n, out + 3 * i); }
		free(in), free(out);
	}
	else if (what == 6)
	{	/* truncated: the first bytes, and an answer that fits */
		char* in = malloc(n);
		patfill(in, 0, n);
		size_t cap = n + n / 2;
		char* out = malloc(cap);
		r = str_char2hex(out, cap, in, n);
		HX_CHECK(memchr(out, 0, cap) && r == strlen(out), "hex-length", "%zu is returned for %zu bytes in %zu", (size_t)r, n, cap);
		char* t = strchr(out, ':');
		HX_CHECK(t && strlen(t + 1) >= 3, "hex-truncated", "%zu bytes in %zu", n, cap);
		for (size_t i = 0; t[1 + 3 * i] && t[2 + 3 * i] && t[3 + 3 * i]; i++) { char x[8]; sprintf(x, " %02x", (uint8_t)in[i]); HX_CHECK(!memcmp(t + 1 + 3 * i, x, 3), "hex-data", "byte %zu of %zu is '%.3s'", i, n, t + 1 + 3 * i); }
		free(in), free(out);
	}
	else
	{
		char* t = ltext(n, "abc%");
		HX_CHECK(vs("%s", t) == (int)n && vs("<%s|%05d>", t, 3) == (int)n + 8, "vscprintf", "the length of a formatted text of %zu is wrong", n);
		r = n;
		free(t);
	}
	fin(&n, sizeof n, r + (uint64_t)what);
}
/* destinations that are much larger than what goes into them */
static void wide(void)
{
	char* d = room();
	char big[300];
	for (int k = 0; k < NROOM; k++)
	{
		size_t n = room_n[k];
		memset(d, 'z', 400);
		size_t r = strlcpy(d, "some text", n);
		HX_CHECK(r == 9 && !strcmp(d, "some text"), "strlcpy-room", "copying into %zu bytes gives %zu, '%.20s'", n, r, d);
		r = strlcat(d, ", more", n);
		HX_CHECK(r == 15 && !strcmp(d, "some text, more"), "strlcat-room", "appending to %zu bytes gives %zu, '%.20s'", n, r, d);
		for (int i = 0; i < 100; i++) big[i] = (char)(i * 7);
		r = str_char2hex(d, n, big, 100);
		HX_CHECK(r == 300 && strlen(d) == 300 && !strncmp(d, " 00 07 0e", 9), "hex-room", "hex into %zu bytes gives %zu, '%.20s'", n, r, d);
		HX_CHECK(strnutf8len("a\xc3\xa4z", n) == 3, "utf8-room", "with the limit %zu, %zu code points are counted", n, strnutf8len("a\xc3\xa4z", n));
		char** p = (char**)room();
		char t[] = "a,b,c";
		if (n < 0x1ffffff)
		{	/* room for more pieces than there are */
			size_t m = n;
			strsplit(p, &m, t, ",");
			HX_CHECK(m == 3 && !strcmp(p[0], "a") && !strcmp(p[1], "b") && !strcmp(p[2], "c"), "split-room", "with room for %zu pieces, %zu are given", n, m);
		}
		hx_eval(1), hx_trans(5), hx_state((uint64_t)k);
	}
	hx_outcome(1);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "wide", wide, 0, 0, "stated sizes around 2^16, 2^31 and 2^32 of destinations that are much larger than needed" },
	{ "scale", scale, 0, 0, "every helper on texts of 255 .. 131073 characters" },
	{ "format length", fmt, 0, 0, "lengths 0..299" },
	{ "copy and append", cpycat, 0, 0, "every source length x destination length x size" },
	{ "hex", hex, 0, 0, "every byte count x capacity" },
	{ "code-points", points, 0, 0, "every code point" },
	{ "utf8", utf8, 0, 0, "every text of code points of 1..4 bytes up to the bound, every cut" },
	{ "trim and case", trim, 0, 0, "every text x character set" },
	{ "split", split, 0, 0, "every text x delimiter set x room" },
	{ "replace", replace, 0, 0, "every original x pattern x replacement; without memory" },
};
const int hx_n_scenarios = 10;
