/* M01: the memory pool hands out disjoint blocks and takes everything back. */
#include "seq.h"
#include "scale.h"
#include "mem/mplite.h"
#define MAXL 10
static struct { uint8_t* p; int n, full; uint8_t tag; } L[MAXL];
static int nl, atom, nblk, depth;
static uint8_t* buf;
static int bufsz;
static mplite_t* M;
static uint64_t obs, calls, tot, exc;
static uint32_t maxout, maxcnt, maxreq;
static int lockd, locks;
static uint8_t tagc;
static int acq(void* a) { HX_CHECK(a == &lockd, "lock-arg", "the lock callback gets a foreign argument"); HX_CHECK(!lockd, "lock-nesting", "the lock is taken twice"); lockd = 1, locks++; return 0; }
static int rel(void* a) { HX_CHECK(a == &lockd && lockd, "lock-pairing", "the lock is released without being held"); lockd = 0; return 0; }
static void fill(int i) { memset(L[i].p, L[i].tag, (size_t)L[i].n); }
static void intact(const char* when)
{
	for (int i = 0; i < nl; i++)
		for (int k = 0; k < L[i].n; k++)
			HX_CHECK(L[i].p[k] == L[i].tag, "contents", "byte %d of a live %d-byte block changed %s", k, L[i].n, when);
}
static int full(int n) { int f = atom; while (f < n) f <<= 1; return f; }
/* the canonical buddy decomposition of what is free */
static void freespace(int* mx, int* total)
{
	bool used[256] = { 0 };
	for (int i = 0; i < nl; i++) { int o = (int)(L[i].p - buf) / atom; for (int k = 0; k < L[i].full / atom; k++) used[o + k] = true; }
	*mx = *total = 0;
	for (int i = 0; i < nblk; i++) *total += !used[i];
	*total *= atom;
	for (int s = 1; s <= nblk; s <<= 1)
		for (int o = 0; o + s <= nblk; o += s)
		{
			bool f = true;
			for (int k = 0; k < s; k++) f &= !used[o + k];
			if (f) *mx = s * atom;
		}
}
static void look(void)
{
	int mx, total;
	freespace(&mx, &total);
	HX_CHECK(mplite_freemem(M) == total, "freemem", "%d bytes are free, mplite_freemem says %d", total, mplite_freemem(M));
	HX_CHECK(mplite_maxmem(M) == mx, "maxmem", "the largest free block has %d bytes, mplite_maxmem says %d (%d live blocks)", mx, mplite_maxmem(M), nl);
	uint32_t out = 0;
	for (int i = 0; i < nl; i++) out += (uint32_t)L[i].full;
	if (out > maxout) maxout = out;
	if ((uint32_t)nl > maxcnt) maxcnt = (uint32_t)nl;
	HX_CHECK(M->currentOut == out && M->currentCount == (uint32_t)nl, "stats-current", "statistics say %u bytes in %u blocks are checked out instead of %u in %d", M->currentOut, M->currentCount, out, nl);
	HX_CHECK(M->maxOut == maxout && M->maxCount == maxcnt, "stats-max", "statistics say at most %u bytes in %u blocks were checked out instead of %u in %u", M->maxOut, M->maxCount, maxout, maxcnt);
	HX_CHECK(M->nAlloc == calls && M->totalAlloc == tot && M->totalExcess == exc && M->maxRequest == maxreq, "stats-total", "totals are wrong: %llu calls of %llu, %llu bytes of %llu, excess %llu of %llu, largest %u of %u",
		(unsigned long long)M->nAlloc, (unsigned long long)calls, (unsigned long long)M->totalAlloc, (unsigned long long)tot, (unsigned long long)M->totalExcess, (unsigned long long)exc, M->maxRequest, maxreq);
	HX_CHECK(mplite_alloc_count(M) == calls, "stats-total", "mplite_alloc_count");
	HX_CHECK(!lockd, "lock-left", "the lock stays held");
	intact("");
	uint64_t h = hx_mix((uint64_t)nblk, (uint64_t)atom);
	uint64_t s = 0;
	for (int i = 0; i < nl; i++) s += hx_mix((uint64_t)(L[i].p - buf), (uint64_t)L[i].full);
	hx_state(hx_mix(h, s));
	obs = hx_mix(obs, s);
	hx_trans(1);
}
static void add(uint8_t* p, int n, const char* op)
{
	int f = full(n);
	HX_CHECK(p >= buf && p + f <= buf + nblk * atom, "bounds", "%s of %d returns a block outside the pool (offset %ld, pool %d)", op, n, (long)(p - buf), nblk * atom);
	HX_CHECK((p - buf) % atom == 0, "alignment", "%s returns offset %ld, not a multiple of %d", op, (long)(p - buf), atom);
	for (int i = 0; i < nl; i++)
		HX_CHECK(p + f <= L[i].p || L[i].p + L[i].full <= p, "overlap", "%s of %d returns offset %ld, which overlaps the live block %ld+%d", op, n, (long)(p - buf), (long)(L[i].p - buf), L[i].full);
	L[nl].p = p, L[nl].n = n, L[nl].full = f, L[nl].tag = ++tagc;
	nl++;
	calls++, tot += (uint64_t)f, exc += (uint64_t)(f - n);
}
static void op_alloc(int n, bool z)
{
	int mx, total;
	freespace(&mx, &total);
	hx_log("%s(%d)", z ? "calloc" : "malloc", n);
	uint8_t* p = z ? mplite_calloc(M, n) : mplite_malloc(M, n);
	if (n > 0 && (uint32_t)n > maxreq && n <= MPLITE_MAX_ALLOC_SIZE) maxreq = (uint32_t)n;
	if (n <= 0 || n > MPLITE_MAX_ALLOC_SIZE) { HX_CHECK(!p, "alloc-size", "allocating %d bytes succeeds", n); return; }
	bool fits = full(n) <= mx;
	HX_CHECK((p != NULL) == fits, "alloc-result", "allocating %d bytes %s although the largest free block has %d", n, p ? "succeeds" : "fails", mx);
	if (!p) return;
	intact("by an allocation");
	add(p, n, z ? "calloc" : "malloc");
	if (z) for (int k = 0; k < n; k++) HX_CHECK(p[k] == 0, "calloc-zero", "byte %d of a zeroed block is %d", k, p[k]);
	fill(nl - 1);
}
static void op_free(int i)
{
	hx_log("free(%ld)", (long)(L[i].p - buf));
	uint8_t* p = L[i].p;
	L[i] = L[--nl];
	mplite_free(M, p);
}
static void op_realloc(int i, int n)
{
	int mx, total;
	freespace(&mx, &total);
	hx_log("realloc(%ld, %d)", (long)(L[i].p - buf), n);
	int r = mplite_resize(M, L[i].p, n);
	bool ok = n > 0 && !(n & (n - 1));
	HX_CHECK(r == (ok && n <= L[i].full ? MPLITE_OK : MPLITE_ERR_INVPAR), "resize", "resizing a %d-byte block to %d gives %d", L[i].full, n, r);
	uint8_t* p = mplite_realloc(M, L[i].p, n);
	if (!ok) { HX_CHECK(!p, "realloc-size", "reallocating to %d succeeds", n); return; }
	if (n <= L[i].full)
	{
		HX_CHECK(p == L[i].p, "realloc-in-place", "a block that is large enough is moved");
		if (n < L[i].n) L[i].n = n;      /* what stays of the contents */
		return;
	}
	if ((uint32_t)n > maxreq) maxreq = (uint32_t)n;
	if (!p) { HX_CHECK(full(n) > mx, "realloc-result", "reallocating to %d fails although a block of %d bytes is free", n, mx); return; }
	{	/* while it copies, a reallocation may have both blocks checked out */
		uint32_t o = (uint32_t)full(n);
		for (int k = 0; k < nl; k++) o += (uint32_t)L[k].full;
		if (M->maxOut == o && o > maxout) maxout = o;
		if (M->maxCount == (uint32_t)nl + 1 && maxcnt < (uint32_t)nl + 1) maxcnt = (uint32_t)nl + 1;
	}
	int on = L[i].n;
	uint8_t t = L[i].tag;
	for (int k = 0; k < on; k++) HX_CHECK(p[k] == t, "realloc-contents", "byte %d is lost when %d bytes grow to %d", k, on, n);
	L[i] = L[--nl];
	intact("by a reallocation");
	add(p, n, "realloc");
	fill(nl - 1);
}
static void mk(int sz, int at, bool lock)
{
	mplite_lock_t lk = { &lockd, acq, rel };
	nl = 0, obs = 0, calls = tot = exc = 0, maxout = maxcnt = maxreq = 0, lockd = locks = 0, tagc = 0;
	bufsz = sz, atom = at < 8 ? 8 : at;
	nblk = sz / (atom + 1);
	buf = malloc((size_t)sz);
	memset(buf, 0xEE, (size_t)sz);
	M = malloc(sizeof *M);
	memset(M, 0x77, sizeof *M);
	HX_CHECK(mplite_init(M, buf, sz, at, lock ? &lk : NULL) == MPLITE_OK, "init", "initialising a %d-byte pool failed", sz);
	hx_log("pool of %d bytes: %d blocks of %d", sz, nblk, atom);
	look();
}
static void done(void)
{
	while (nl) { op_free(hx_tracing() ? nl - 1 : nl - 1); look(); }
	/* everything is back: the pool is as good as new */
	int mx, total;
	freespace(&mx, &total);
	if (mx) { op_alloc(mx, false); look(); op_free(0); look(); }
	free(buf);
	free(M);
	hx_outcome(obs);
}
/* operation sequences */
static void seqs(int steps, bool re)
{
	for (int s = 0; s < steps; s++)
	{
		int na = 4, n = 0;
		int c = hx_choose(na + nl * (re ? 3 : 1), "operation");
		if (c < na)
		{
			n = c == 0 ? 1 : c == 1 ? atom + 1 : c == 2 ? 3 * atom : atom;
			if (nl == MAXL) hx_prune();
			op_alloc(n, c == 3);
		}
		else if (c < na + nl) op_free(c - na);
		else { c -= na + nl; op_realloc(c % nl, c / nl ? 4 * atom : 2 * atom); }
		look();
	}
}
static void hist(void)
{
	int nb = 1 + hx_choose(HX_T(9, 12), "blocks");
	mk(nb * 9 + hx_choose(2, "odd rest") * 5, 8, nb & 1);
	seqs(HX_T(5, 7), true);
	done();
}
static void frag(void)
{
	static const int nbs[] = { 4, 7, 8, 11, 16 };
	mk(nbs[hx_choose(5, "blocks")] * 17, 16, false);
	seqs(HX_T(8, 10), false);
	done();
}
/* every order of giving back: k blocks of every size pattern, every permutation */
static void perm(void)
{
	static const int nbs[] = { 8, 13, 16 };
	mk(nbs[hx_choose(3, "blocks")] * 9, 8, true);
	int k = HX_T(6, 7);
	for (int i = 0; i < k; i++) { op_alloc(8 << hx_choose(HX_T(2, 3), "size"), false); look(); }
	while (nl) { op_free(hx_choose(nl, "free")); look(); }
	HX_CHECK(locks > 0, "lock-used", "the lock callbacks are never called");
	done();
}
/* sizes and parameters */
static void sizes(void)
{
	int at = 1 << hx_choose(8, "minimum");
	int sz = 1 + hx_choose(HX_T(300, 600), "pool size");
	mk(sz, at, false);
	int n = hx_choose(14, "request");
	static const int special[] = { 0, -1, -2147483647 - 1, MPLITE_MAX_ALLOC_SIZE, MPLITE_MAX_ALLOC_SIZE + 1, 2147483647, MPLITE_MAX_ALLOC_SIZE / 2 };
	if (n < 7) { op_alloc(special[n], n & 1); look(); }
	else for (int i = 0; i < 3; i++) { int mx, t; freespace(&mx, &t); int v[] = { 1, atom - 1, atom, atom + 1, mx - 1, mx, mx + 1 }; op_alloc(v[n - 7], i & 1); look(); }
	if (nl) for (int i = -2; i < 5; i++) { op_realloc(0, i < 0 ? i : i == 0 ? 0 : i == 1 ? 3 : i == 2 ? 1 : atom << (i - 2)); look(); }
	for (int i = -3; i < 4 * atom + 2; i++)
	{
		int w = i < 1 ? 0 : full(i);
		HX_CHECK(mplite_roundup(M, i) == w, "roundup", "%d is rounded up to %d instead of %d", i, mplite_roundup(M, i), w);
	}
	HX_CHECK(mplite_roundup(M, 2147483647) == 0 && mplite_roundup(M, MPLITE_MAX_ALLOC_SIZE + 1) == 0 && mplite_roundup(M, MPLITE_MAX_ALLOC_SIZE) == MPLITE_MAX_ALLOC_SIZE, "roundup", "rounding at the limit");
	/* invalid parameters */
	HX_CHECK(!mplite_malloc(NULL, 8) && !mplite_calloc(NULL, 8) && !mplite_realloc(NULL, buf, 8) && !mplite_realloc(M, NULL, 8) && mplite_resize(M, NULL, 8) == MPLITE_ERR_INVPAR, "null", "missing handles are accepted");
	mplite_free(NULL, buf);
	mplite_free(M, NULL);
	look();
	mplite_t x;
	HX_CHECK(mplite_init(NULL, buf, 8, 8, NULL) == MPLITE_ERR_INVPAR && mplite_init(&x, NULL, 8, 8, NULL) == MPLITE_ERR_INVPAR && mplite_init(&x, buf, 0, 8, NULL) == MPLITE_ERR_INVPAR && mplite_init(&x, buf, 8, 0, NULL) == MPLITE_ERR_INVPAR, "init-invalid", "invalid parameters are accepted");
	done();
}
/* big pools: as many smallest blocks as there are, given back in different orders; and big requests */
static void scale(void)
{
	static const int nbs[] = { 255, 256, 257, 1023, 4096, 32767, 32768, 65535, 65536, 65537, 131071 };
	int k = nbs[hx_choose(11, "blocks")], at = 8 << hx_choose(2, "minimum"), order = hx_choose(4, "order");
	mplite_lock_t lk = { &lockd, acq, rel };
	lockd = locks = 0;
	bufsz = k * (at + 1), atom = at, nblk = k;
	buf = malloc((size_t)bufsz);
	mplite_t m;
	HX_CHECK(mplite_init(&m, buf, bufsz, at, &lk) == MPLITE_OK, "init", "initialising a %d-byte pool failed", bufsz);
	int big = 1;
	while (big * 2 <= k) big *= 2;
	HX_CHECK(mplite_freemem(&m) == k * at && mplite_maxmem(&m) == big * at, "freemem", "a fresh pool of %d blocks of %d has %d free, at most %d", k, at, mplite_freemem(&m), mplite_maxmem(&m));
	static uint8_t seen[131072];
	memset(seen, 0, sizeof seen);
	for (int i = 0; i < k; i++)
	{
		uint8_t* p = i & 1 ? mplite_calloc(&m, at) : mplite_malloc(&m, at - 1);
		HX_CHECK(p, "alloc-result", "block %d of %d cannot be allocated", i, k);
		HX_CHECK(p >= buf && p + at <= buf + (size_t)k * (size_t)at && (p - buf) % at == 0, "bounds", "block %d is at offset %ld", i, (long)(p - buf));
		int o = (int)((p - buf) / at);
		HX_CHECK(!seen[o], "overlap", "block %d is handed out twice", o);
		seen[o] = 1;
		patfill(p, (uint64_t)o * 77, (size_t)at - 1);
		if (i % 257 == 0) HX_CHECK(mplite_freemem(&m) == (k - 1 - i) * at, "freemem", "%d blocks are out", i + 1);
	}
	HX_CHECK(!mplite_malloc(&m, 1) && mplite_freemem(&m) == 0 && mplite_maxmem(&m) == 0, "alloc-result", "a pool that is used up still gives a block");
	HX_CHECK(m.currentCount == (uint32_t)k && m.currentOut == (uint32_t)(k * at) && m.maxOut == (uint32_t)(k * at) && m.maxCount == (uint32_t)k, "stats-current", "%u blocks, %u bytes are said to be out instead of %d, %d", m.currentCount, m.currentOut, k, k * at);
	for (int i = 0; i < k; i++)
	{
		long x = order == 0 ? i : order == 1 ? k - 1 - i : order == 2 ? (i < (k + 1) / 2 ? 2l * i : 2l * (i - (k + 1) / 2) + 1) : ((long)i * 127 + 5) % k;
		uint8_t* p = buf + x * at;
		if (order == 3 && k % 127 == 0) { x = i; p = buf + x * at; }
		HX_CHECK(!patcmp(p, (uint64_t)x * 77, (size_t)at - 1), "contents", "block %ld of %d changed", x, k);
		mplite_free(&m, p);
		if (i % 257 == 0) HX_CHECK(mplite_freemem(&m) == (i + 1) * at, "freemem", "%d blocks are back, %d bytes are free", i + 1, mplite_freemem(&m));
	}
	HX_CHECK(mplite_freemem(&m) == k * at && mplite_maxmem(&m) == big * at, "give-back", "after everything is back %d bytes are free, the largest block has %d", mplite_freemem(&m), mplite_maxmem(&m));
	/* big requests, one growing step by step */
	int n = 1;
	uint8_t* p = mplite_malloc(&m, n);
	while (p && n < big * at / 2)
	{
		patfill(p, 5, (size_t)n);
		uint8_t* q = mplite_realloc(&m, p, n * 2);
		if (!q) break;
		HX_CHECK(!patcmp(q, 5, (size_t)n), "realloc-contents", "the contents are lost when %d bytes grow to %d", n, n * 2);
		p = q, n *= 2;
	}
	HX_CHECK(n >= big * at / 4, "realloc-result", "reallocating to %d fails in an otherwise empty pool with a block of %d", n * 2, big * at);
	mplite_free(&m, p);
	for (int s = at; s <= big * at; s *= 2)
		for (int d = -1; d <= 1; d++)
		{
			if (s + d < 1) continue;
			p = mplite_calloc(&m, s + d);
			HX_CHECK((p != NULL) == (s + d <= big * at), "alloc-result", "allocating %d bytes %s although the largest free block has %d", s + d, p ? "succeeds" : "fails", big * at);
			if (!p) continue;
			for (int i = 0; i < s + d; i++) if (p[i]) hx_fail("calloc-zero", "byte %d of %d is not zero", i, s + d);
			memset(p, 0xA5, (size_t)(s + d));
			mplite_free(&m, p);
		}
	HX_CHECK(mplite_freemem(&m) == k * at && mplite_maxmem(&m) == big * at && m.currentCount == 0 && m.currentOut == 0, "give-back", "after everything is back %d bytes are free", mplite_freemem(&m));
	free(buf);
	hx_outcome((uint64_t)k * 64 + (uint64_t)(at + order)), hx_state((uint64_t)k * 64 + (uint64_t)(at + order)), hx_trans((uint64_t)k * 2);
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "pools of 255 .. 131071 smallest blocks used up and given back in 4 orders, growing and big requests" },
	{ "sizes", sizes, 0, 0, "every pool size and power-of-two minimum, requests around every limit" },
	{ "history", hist, 0, 0, "every sequence of malloc/calloc/free/realloc on pools of 1..9 blocks" },
	{ "give back", perm, 0, 0, "every size pattern and every order of freeing" },
	{ "fragmentation", frag, 0, 0, "longer malloc/calloc/free sequences" },
};
const int hx_n_scenarios = 5;
