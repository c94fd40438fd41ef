/* D05 (PART 5) base64, D06 (PART 6) URL encoding, D07 (PART 7) powers of two */
#include "seq.h"
#define SCALE_ROOM
#include "scale.h"
#include "data/base64.h"
#include "data/integer.h"
#include "net/url_encoder_decoder.h"
static uint64_t obs;

#if PART == 5
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int v64(int c) { for (int i = 0; i < 64; i++) if (A64[i] == c) return i; return -1; }
static int8_t T64[256];
static int refenc(char* o, const uint8_t* s, size_t n)
{
	char* p = o;
	for (size_t i = 0; i < n; i += 3)
	{
		uint32_t w = (uint32_t)s[i] << 16 | (i + 1 < n ? (uint32_t)s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
		*p++ = A64[w >> 18 & 63];
		*p++ = A64[w >> 12 & 63];
		*p++ = i + 1 < n ? A64[w >> 6 & 63] : '=';
		*p++ = i + 2 < n ? A64[w & 63] : '=';
	}
	*p = 0;
	return (int)(p - o);
}
static void enc(const uint8_t* s, size_t n)
{
	static char want[1 << 18];
	int wl = refenc(want, s, n);
	int bs = lcu_base64_encode_buf_size(n);
	HX_CHECK(bs == wl + 1, "buf-size", "encode_buf_size(%zu)=%d instead of %d", n, bs, wl + 1);
	char* o = malloc((size_t)bs);           /* exactly what the library asks for */
	int r = lcu_base64_encode(o, (const char*)s, n);
	HX_CHECK(r == wl + 1, "encode-result", "encoding %zu byte(s) %02x.. returns %d instead of %d", n, s[0], r, wl + 1);
	HX_CHECK(!strcmp(o, want), "encode-data", "encoding of %zu byte(s) gives %s instead of %s", n, o, want);
	int ds = lcu_base64_decode_buf_size((size_t)wl);
	char* d = malloc((size_t)ds);
	r = lcu_base64_decode(d, o);
	HX_CHECK(r == (int)n && !memcmp(d, s, n), "round-trip", "decoding %s gives %d bytes instead of the %zu encoded", o, r, n);
	HX_CHECK(d[r] == 0, "terminator", "decoded text is not terminated");
	hx_state(hx_hash(n, want, (size_t)wl));
	free(o);
	free(d);
}
static void dec(const char* s)
{
	size_t n = strlen(s), k = 0;
	while (k < n && T64[(uint8_t)s[k]] >= 0) k++;
	static uint8_t want[1 << 18];
	int wl = 0;
	uint32_t acc = 0;
	int bits = 0;
	for (size_t i = 0; i < k; i++) { acc = acc << 6 | (uint32_t)T64[(uint8_t)s[i]]; bits += 6; if (bits >= 8) { want[wl++] = (uint8_t)(acc >> (bits -= 8)); } }
	int ds = lcu_base64_decode_buf_size(n);
	char* d = malloc((size_t)ds);
	char* in = malloc(n + 1);
	memcpy(in, s, n + 1);
	int r = lcu_base64_decode(d, in);
	HX_CHECK(r == wl && !memcmp(d, want, (size_t)wl), "decode", "decoding '%s' gives %d bytes instead of %d", s, r, wl);
	HX_CHECK(d[r] == 0, "terminator", "decoded text is not terminated");
	hx_state(hx_hash(n, want, (size_t)wl));
	free(d);
	free(in);
}
static void short_inputs(void)
{
	int a = hx_choose(256, "first byte"), n = 1 + hx_choose(3, "length");
	uint8_t s[4] = { (uint8_t)a };
	int lim1 = n > 1 ? 256 : 1, lim2 = n > 2 ? 256 : 1, st = 1;
	for (int b = 0; b < lim1; b++)
		for (int c = a % st; c < lim2; c += st) { s[1] = (uint8_t)b, s[2] = (uint8_t)c; enc(s, (size_t)n); hx_trans(1); }
	hx_outcome((uint64_t)a * 4 + (uint64_t)n);
}
static void longer(void)
{
	int n = 1 + hx_choose(HX_T(70, 400), "length"), pos = hx_choose(n < 12 ? n : 12, "position"), v = hx_choose(16, "value");
	uint8_t* s = malloc((size_t)n);          /* no byte after the input may be read */
	for (int i = 0; i < n; i++) s[i] = (uint8_t)(i * 37 + 11);
	s[n - 1 - pos] = (uint8_t)(v * 17);
	enc(s, (size_t)n);
	free(s);
	hx_trans(1);
	hx_outcome((uint64_t)n << 16 | (uint64_t)pos << 8 | (uint64_t)v);
}
static void decoding(void)
{
	for (int i = 0; i < 256; i++) T64[i] = (int8_t)v64(i);
	T64[0] = -1;
	static const char al[] = "AZaz09+/=\n \xff-";
	int L = HX_T(7, 8);
	char s[16] = "";
	int first = hx_choose(13, "c0"), second = hx_choose(13, "c1");
	s[0] = al[first], s[1] = al[second];
	uint64_t tot = 1;
	for (int k = 2; k <= L; k++)
	{
		for (uint64_t w = 0; w < tot; w++)
		{
			uint64_t x = w;
			for (int i = 2; i < k; i++) s[i] = al[x % 13], x /= 13;
			s[k] = 0;
			dec(s);
			hx_trans(1);
		}
		tot *= 13;
	}
	dec("");
	s[1] = 0;
	dec(s);
	hx_outcome((uint64_t)first * 13 + (uint64_t)second);
}
static void all_pairs(void)
{ /* all single and double bytes as encoded input */
	for (int i = 0; i < 256; i++) T64[i] = (int8_t)v64(i);
	T64[0] = -1;
	int a = 1 + hx_choose(255, "first byte");
	char s[8] = { (char)a };
	dec(s);
	for (int b = 1; b < 256; b++) { s[1] = (char)b; s[2] = 0; dec(s); strcpy(s + 2, "Qx"); dec(s); memmove(s + 2, "\0\0", 2); hx_trans(2); }
	hx_outcome((uint64_t)a);
}
static void scale(void)
{
	for (int i = 0; i < 256; i++) T64[i] = (int8_t)v64(i);
	T64[0] = -1;
	size_t n = scale_n[hx_choose(NSCALE, "length")];
	int v = hx_choose(3, "what");
	if (v == 0) { uint8_t* s = malloc(n); patfill(s, 0, n); enc(s, n); free(s); }
	else
	{	/* a long encoded text, with something that ends it in the middle */
		char* t = malloc(n + 1);
		for (size_t i = 0; i < n; i++) t[i] = A64[pat(i) & 63];
		t[n] = 0;
		if (v == 2) t[n - n / 3] = "=\n\xff"[n % 3];
		dec(t);
		free(t);
	}
	hx_trans(1);
	hx_outcome(n * 4 + (uint64_t)v);
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "inputs of 255 .. 131073 bytes, round trip and decoding with an early end" },
	{ "short-inputs", short_inputs, 0, 0, "every input of one, two and three bytes, into buffers of exactly the reported size" },
	{ "longer", longer, 0, 0, "every length, with every nibble pattern at each of the last twelve positions" },
	{ "decoding", decoding, 0, 0, "every text over 13 representative characters (valid, padding, line feed, blank, 8-bit) up to the length bound" },
	{ "all-pairs", all_pairs, 0, 0, "every pair of bytes as encoded text" },
};
const int hx_n_scenarios = 5;

#elif PART == 6
static bool plainc(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '*' || c == '_'; }
static void enc(const uint8_t* s, size_t n, bool all_sizes)
{
	static char want[1 << 19];
	char* p = want;
	for (size_t i = 0; i < n; i++)
		if (plainc(s[i])) *p++ = (char)s[i];
		else if (s[i] == ' ') *p++ = '+';
		else p += sprintf(p, "%%%02X", s[i]);
	*p = 0;
	int wl = (int)(p - want);
	uint8_t* in = malloc(n);
	memcpy(in, s, n);
	for (int sz = all_sizes ? 0 : wl; sz <= wl + 2; sz++)
	{
		char* o = malloc((size_t)sz);
		int r = lcu_url_encode(o, (size_t)sz, (char*)in, n);
		if (sz > wl && sz >= 2) HX_CHECK(r == wl && !memcmp(o, want, (size_t)wl + 1), "encode", "encoding %zu byte(s) %02x.. into %d bytes returns %d instead of '%s'", n, s[0], sz, r, want);
		else HX_CHECK(r < 0, "encode-small", "encoding %zu byte(s) into %d bytes (needs %d) returns %d", n, sz, wl + 1, r);
		if (r == wl)
		{
			char* last = NULL;
			int ds = (int)n + 1;
			if (ds < 2) ds = 2;
			char* d = malloc((size_t)ds);
			int k = lcu_url_decode(d, (size_t)ds, o, (size_t)wl, &last);
			HX_CHECK(k == (int)n && !memcmp(d, s, n) && d[k] == 0, "round-trip", "decoding '%s' does not give the original back (%d)", want, k);
			HX_CHECK(last == o + wl, "last-pos", "last position is %ld after %d characters", (long)(last - o), wl);
			free(d);
		}
		hx_state(hx_hash((uint64_t)sz, want, (size_t)wl));
		free(o);
		hx_trans(1);
	}
	free(in);
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void dec_sizes(const char* s, size_t n, size_t from, size_t to, size_t step)
{
	char* in = malloc(n);
	memcpy(in, s, n);
	for (size_t sz = from; sz <= to; sz += step)
	{
		static char want[1 << 18];
		size_t i = 0, o = 0;
		bool bad = n < 1 || sz < 2;
		while (!bad && i < n && o + 1 < sz)
		{
			uint8_t c = (uint8_t)in[i];
			if (c == '+') want[o++] = ' ', i++;
			else if (c == '%')
			{
				if (i + 3 > n) break;
				int a = hexv((uint8_t)in[i + 1]), b = hexv((uint8_t)in[i + 2]);
				if (a < 0 || b < 0) { bad = true; break; }
				want[o++] = (char)(a << 4 | b), i += 3;
			}
			else if (plainc(c)) want[o++] = (char)c, i++;
			else bad = true;
		}
		char* d = malloc(sz);
		char* last = (char*)1;
		int r = lcu_url_decode(d, sz, in, n, &last);
		if (bad) HX_CHECK(r < 0, "decode-bad", "decoding the malformed '%.*s' into %zu bytes returns %d", (int)n, s, sz, r);
		else
		{
			HX_CHECK(r == (int)o && !memcmp(d, want, o) && d[o] == 0, "decode", "decoding '%.*s' into %zu bytes returns %d instead of %zu", (int)n, s, sz, r, o);
			HX_CHECK(last == in + i, "last-pos", "decoding '%.*s' into %zu bytes reports position %ld instead of %zu", (int)n, s, sz, (long)(last - in), i);
			HX_CHECK(lcu_url_decode(d, sz, in, n, NULL) == r, "last-null", "the result differs without the position argument");
		}
		hx_state(hx_hash(sz, want, bad ? 0 : o));
		free(d);
		hx_trans(1);
	}
	free(in);
}
static void dec(const char* s, size_t n) { dec_sizes(s, n, 0, n + 2, 1); }
static void scale(void)
{
	size_t n = scale_n[hx_choose(NSCALE, "length")];
	int v = hx_choose(4, "what");
	uint8_t* s = malloc(n);
	for (size_t i = 0; i < n; i++) s[i] = v == 1 ? (uint8_t)('a' + i % 26) : v == 2 ? (uint8_t)(0x80 + i % 127) : pat(i);
	if (v < 3) enc(s, n, false);
	else
	{	/* an encoded text, cut at different places of the buffer */
		for (size_t i = 0; i < n; i++) s[i] = (uint8_t)"a%4FZ+%c3b"[i % 10];
		dec_sizes((char*)s, n, n / 2, n + 2, n / 6);
		dec_sizes((char*)s, n, n / 10 * 6 - 2, n / 10 * 6 + 3, 1);
	}
	free(s);
	hx_outcome(n * 4 + (uint64_t)v);
}
static void bytes(void)
{
	int a = hx_choose(256, "first byte");
	uint8_t s[4] = { (uint8_t)a };
	enc(s, 1, true);
	for (int b = 0; b < 256; b++)
	{
		s[1] = (uint8_t)b;
		enc(s, 2, true);
		for (int c = 0; c < 256; c += HX_T(23, 3)) { s[2] = (uint8_t)c; enc(s, 3, false); }
	}
	hx_outcome((uint64_t)a);
}
static void encoding(void)
{
	static const uint8_t al[] = { 'a', 'Z', '0', ' ', '+', '%', '/', 0, 0x80, 0xff, '-' };
	uint8_t s[8];
	int n = 1 + hx_choose(HX_T(4, 5), "length");
	for (int i = 0; i < n; i++) s[i] = al[hx_choose(11, "char")];
	enc(s, (size_t)n, true);
	hx_outcome(hx_hash(1, s, (size_t)n));
}
static void decoding(void)
{
	static const char al[] = { 'a', '%', '4', 'F', '+', 'g', '\0', '\x80', '/' , '~' };
	char s[8];
	int n = hx_choose(HX_T(6, 7), "length");
	for (int i = 0; i < n; i++) s[i] = al[hx_choose(10, "char")];
	dec(s, (size_t)n);
	hx_outcome(hx_hash(2, s, (size_t)n));
}
static void escapes(void)
{ /* every two characters after a percent sign */
	int a = hx_choose(256, "hex 1");
	char s[5] = { '%', (char)a };
	for (int b = 0; b < 256; b++) { s[2] = (char)b; s[3] = 'x'; dec(s, 4); }
	s[0] = (char)a;
	dec(s, 1);
	hx_outcome((uint64_t)a);
}
/* destinations that are much larger than what goes into them */
static void wide(void)
{
	char* d = room();
	for (int k = 0; k < NROOM; k++)
	{
		size_t n = room_n[k];
		char* last = NULL;
		static const char in[] = "a b/c%41+Z", en[] = "a+b%2Fc%2541%2BZ";
		memset(d, 'z', 100);
		int r = lcu_url_encode(d, n, in, 10);
		HX_CHECK(r == 16 && !strcmp(d, en), "encode-room", "encoding into %zu bytes gives %d, '%.20s'", n, r, d);
		r = lcu_url_decode(d, n, en, 16, &last);
		HX_CHECK(r == 10 && !strcmp(d, in) && last == en + 16, "decode-room", "decoding into %zu bytes gives %d, '%.20s'", n, r, d);
		hx_eval(1), hx_trans(2), hx_state((uint64_t)k);
	}
	hx_outcome(1);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "wide", wide, 0, 0, "stated sizes around 2^16, 2^31 and 2^32 of destinations that are much larger than needed" },
	{ "scale", scale, 0, 0, "texts of 255 .. 131073 bytes, encoded and decoded back, and decoded into buffers of different sizes" },
	{ "bytes", bytes, 0, 0, "every one- and two-byte text into every buffer size, three-byte texts; encode and decode back" },
	{ "encoding", encoding, 0, 0, "every text over 11 representative bytes up to the length bound, into every buffer size" },
	{ "decoding", decoding, 0, 0, "every (also malformed) encoded text over 10 representative characters up to the length bound, into every buffer size" },
	{ "escapes", escapes, 0, 0, "every pair of bytes after a percent sign" },
};
const int hx_n_scenarios = 6;

#else
static void all32(void)
{
	uint32_t hi = (uint32_t)hx_choose(4096, "top 12 bits");
	for (uint32_t lo = 0; lo < 1u << 20; lo++)
	{
		uint32_t i = hi << 20 | lo;
		bool p = i > 1 && !(i & (i - 1));
		uint32_t dn = i < 2 ? 0 : 0x80000000u >> __builtin_clz(i);
		uint64_t up = i == 0 ? 0 : i == 1 ? 2 : p ? i : 2ull * dn;
		if (integer_is_power_of_two(i) != p) hx_fail("is-power", "is_power_of_two(%u) is %d", i, !p);
		uint32_t r = integer_roundup_pow_of_two(i);
		if (r != (uint32_t)up) hx_fail("roundup", "roundup(%u) is %u", i, r);
		r = integer_rounddown_pow_of_two(i);
		if (r != dn) hx_fail("rounddown", "rounddown(%u) is %u instead of %u", i, r, dn);
	}
	hx_eval(3u << 20);
	hx_trans(1u << 20);
	hx_state(hi);
	hx_outcome(hi);
}
const hx_scn_t hx_scenarios[] = { { "all-integers", all32, 0, 0, "all 2^32 arguments of the three functions" } };
const int hx_n_scenarios = 1;
#endif
