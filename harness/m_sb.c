/* M05: the string builder holds exactly what was appended, also when memory runs out. */
#include "seq.h"
#include "scale.h"
#include <wchar.h>
#include "mem/stringbuilder.h"
static char want[1 << 20];
static size_t wl;
static stringbuilder_t* S;
static uint64_t obs;
static void look(void)
{
	HX_CHECK(stringbuilder_len(S) == wl, "length", "%zu characters were appended, the length is %zu", wl, stringbuilder_len(S));
	const char* s = stringbuilder_to_string(S);
	HX_CHECK(!memcmp(s, want, wl + 1), "contents", "the text is '%.60s' instead of '%.60s'", s, want);
	obs = hx_mix(obs, hx_hash(wl, want, wl));
	hx_state(hx_hash(wl, want, wl));
	hx_trans(1);
}
static char nextc;
static void rnd(char* b, size_t n) { for (size_t i = 0; i < n; i++) { b[i] = (char)('a' + nextc); nextc = (char)((nextc + 1) % 26); } b[n] = 0; }
/* op with text of n characters; returns whether memory was asked for and refused */
static void op(int o, size_t n, bool oom)
{
	char* t = malloc(n + 1);
	rnd(t, n);
	int r = 0;
	static char buf[150000];
	const char* add = t;
	if (oom) sq_fail_alloc(1, true);
	switch (o)
	{
	case 0: t[1 < n ? 1 : n] = 0; if (!*t) *t = 'z'; r = stringbuilder_appendchar(S, t[0]); snprintf(buf, sizeof buf, "%c", t[0]); add = buf; break;
	case 1: r = stringbuilder_appendstr(S, t); break;
	case 2: r = stringbuilder_appendnstr(S, t, n / 2 + 1); snprintf(buf, sizeof buf, "%.*s", (int)(n / 2 + 1), t); add = buf; break;
	case 3: r = stringbuilder_appendnstr(S, t, n + 7); break;                              /* more than there is */
	case 4: r = stringbuilder_appendf(S, "%s", t); break;
	case 5: r = stringbuilder_appendf(S, "%s=%d;%%", t, (int)n - 3); snprintf(buf, sizeof buf, "%s=%d;%%", t, (int)n - 3); add = buf; break;
	case 6: r = stringbuilder_appendf(S, "%ls", L"\x20ac\x20ac"); HX_CHECK(r != 0, "format-error", "a text that cannot be formatted is accepted"); add = ""; break;
	case 7: r = stringbuilder_clear(S); HX_CHECK(r == 0, "clear", "clear fails"); wl = 0; want[0] = 0; add = ""; break;
	default: { char* raw = malloc(n ? n : 1); memcpy(raw, t, n); r = n ? stringbuilder_appendnstr(S, raw, n) : 0; free(raw); }   /* no terminator */
	}
	int fired = oom ? sq_alloc_fired() : 0;
	sq_fail_alloc(0, false);
	HX_CHECK(!fired || r != 0, "append-oom", "an append that got no memory reports success");
	if (!fired && *add) HX_CHECK(r == 0, "append-result", "appending %zu characters gives %d", strlen(add), r);
	if (r == 0) { strcpy(want + wl, add); wl += strlen(add); }
	free(t);
	look();
}
static void mk(size_t init)
{
	wl = 0, want[0] = 0, obs = 0, nextc = 0;
	S = stringbuilder_create(init);
	HX_CHECK(S, "create", "creation failed");
	look();
}
static void rm(void)
{
	stringbuilder_destroy(&S);
	HX_CHECK(!S, "destroy", "the handle is not reset");
	stringbuilder_destroy(&S);
	stringbuilder_destroy(NULL);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void hist(void)
{
	static const size_t in[] = { 0, 1, 2, 3, 5, 8 };
	mk(in[hx_choose(6, "initial size")]);
	static const size_t ln[] = { 0, 1, 2, 3, 4, 7 };
	for (int i = 0; i < HX_T(3, 4); i++)
	{
		int o = hx_choose(9, "operation");
		size_t n = o == 6 || o == 7 || o == 0 ? 1 : ln[hx_choose(HX_T(6, 6), "length")];
		op(o, n, hx_choose(2, "oom"));
	}
	rm();
}
static void size(void)
{	/* every initial size against every length, twice */
	mk((size_t)hx_choose(HX_T(140, 300), "initial size"));
	int o = 1 + hx_choose(5, "operation");
	size_t n = (size_t)hx_choose(HX_T(140, 300), "length");
	op(o, n, false);
	op(8, 1, false);
	op(o, n, false);
	op(0, 1, false);
	rm();
}
static void grow(void)
{
	mk((size_t)hx_choose(6, "initial size"));
	int o = 1 + hx_choose(5, "operation");
	size_t n = 1 + (size_t)hx_choose(40, "length");
	int at = hx_choose(40, "failing append");
	for (int i = 0; i < 60; i++) { op(o, n, i == at); if (i % 13 == 5) op(0, 1, false); }
	rm();
}
static void scale(void)
{	/* long texts, and very many short ones */
	static const size_t init[] = { 0, 100, 65536, 200000 };
	mk(init[hx_choose(4, "initial size")]);
	int o = 1 + hx_choose(5, "operation");
	int k = hx_choose(NSCALE + 1, "length");
	if (k < NSCALE) for (int i = 0; i < 3; i++) { op(o, scale_n[k], false); op(0, 1, false); }
	else
	{
		for (int i = 0; i < 6000; i++)
		{	/* looking at the whole text after each append would cost the square */
			char t[24];
			rnd(t, 1 + (size_t)i % 19);
			int r = o == 1 ? stringbuilder_appendstr(S, t) : o == 2 ? stringbuilder_appendnstr(S, t, strlen(t)) : o == 3 ? stringbuilder_appendnstr(S, t, 90) : o == 4 ? stringbuilder_appendf(S, "%s", t) : stringbuilder_appendchar(S, (t[1] = 0, t[0]));
			HX_CHECK(r == 0, "append-result", "append %d gives %d", i, r);
			strcpy(want + wl, t);
			wl += strlen(t);
			if (i % 97 == 0 || i % 256 == 255) look();
		}
		look();
	}
	op(7, 1, false);
	op(1, 40, false);
	rm();
}
static void chars(void)
{	/* every character, the terminator too: a builder holds what it was given */
	int c = hx_choose(256, "char");
	char in[4] = { 'a', (char)c, 'b', 0 };
	S = stringbuilder_create((size_t)hx_choose(5, "initial size"));
	for (int r = 0; r < 5; r++)
	{
		for (int i = 0; i < 3; i++) HX_CHECK(stringbuilder_appendchar(S, in[i]) == 0, "append-result", "appending character %d fails", in[i]);
		HX_CHECK(stringbuilder_len(S) == (size_t)(r + 1) * 3, "length", "%d characters with code %d between them have the length %zu", r + 1, c, stringbuilder_len(S));
		const char* t = stringbuilder_to_string(S);
		for (int i = 0; t && i < (r + 1) * 3; i++) HX_CHECK(t[i] == in[i % 3], "contents", "character %d is %d", i, t[i]);
		HX_CHECK(t && !t[(r + 1) * 3], "contents", "no terminator");
	}
	stringbuilder_destroy(&S);
	sq_check_leaks("leak");
}
static void params(void)
{
	mk(0);
	char x[] = "x";
	HX_CHECK(stringbuilder_appendchar(NULL, 'x') != 0 && stringbuilder_appendstr(NULL, x) != 0 && stringbuilder_appendnstr(NULL, x, 1) != 0 && stringbuilder_appendf(NULL, "x") != 0 && stringbuilder_clear(NULL) != 0, "null-handle", "a missing builder is accepted");
	HX_CHECK(stringbuilder_appendstr(S, NULL) != 0 && stringbuilder_appendnstr(S, NULL, 3) != 0 && stringbuilder_appendf(S, NULL) != 0, "null-text", "a missing text is accepted");
	look();
	rm();
	int k = hx_choose(2, "allocation");
	sq_fail_alloc(k + 1, false);
	S = stringbuilder_create(10);
	HX_CHECK(!S && sq_alloc_fired(), "create-oom", "a builder is created without memory");
	sq_check_leaks("create-oom-leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "texts of 255 .. 131073 characters appended with every operation, 6000 appends in a row" },
	{ "characters", chars, 0, 0, "every character, the terminator too" },
	{ "parameters", params, 0, 0, "missing arguments, failing creation" },
	{ "growth", grow, 0, 0, "60 appends of every kind and length, one of them without memory" },
	{ "sizes", size, 0, 0, "every initial size x length x operation" },
	{ "history", hist, 0, 0, "every sequence of operations, each possibly without memory" },
};
const int hx_n_scenarios = 6;
