/* R01: RingBuffer is an exact bounded byte FIFO. */
#include "seq.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "ring/ringbuffer.h"
#include "scale.h"

#define MAXCAP 4096
typedef struct { uint8_t q[MAXCAP]; uint32_t len, cap; } model_t;

static uint8_t next_byte;
static uint64_t obs;

static void queries(ring_buffer_handle h, const model_t* m)
{
	HX_CHECK(RingBuffer_real_capacity(h) == m->cap, "capacity-changed", "capacity is %u, was %u", RingBuffer_real_capacity(h), m->cap);
	HX_CHECK(RingBuffer_available_read(h) == m->len, "available-read", "available_read=%u, %u bytes are stored", RingBuffer_available_read(h), m->len);
	HX_CHECK(RingBuffer_available_write(h) == m->cap - m->len, "available-write", "available_write=%u, free space is %u", RingBuffer_available_write(h), m->cap - m->len);
	HX_CHECK(RingBuffer_is_empty(h) == (m->len == 0), "is-empty", "is_empty wrong with %u bytes stored", m->len);
	HX_CHECK(RingBuffer_is_full(h) == (m->len == m->cap), "is-full", "is_full wrong with %u of %u bytes stored", m->len, m->cap);
}

enum { WRITE, READ, PEEK, DISCARD, CLEAR };
static const char* const opn[] = { "write", "read", "peek", "discard", "clear" };

static void step(ring_buffer_handle h, model_t* m, int op, uint32_t n)
{
	static uint8_t src[2 * MAXCAP], dst[2 * MAXCAP + 16];
	uint32_t r, want;
	hx_log("%s(%u)   [holds %u of %u]", opn[op], n, m->len, m->cap);
	switch (op)
	{
	case WRITE:
		for (uint32_t i = 0; i < n; i++) src[i] = next_byte + (uint8_t)i;
		want = n < m->cap - m->len ? n : m->cap - m->len;
		r = RingBuffer_write(h, src, n);
		HX_CHECK(r == want, "write-count", "write(%u) with %u free took %u bytes", n, m->cap - m->len, r);
		memcpy(m->q + m->len, src, r);
		m->len += r;
		next_byte += (uint8_t)r;
		break;
	case READ:
	case PEEK:
		memset(dst, 0xEE, n + 16);
		want = n < m->len ? n : m->len;
		r = op == READ ? RingBuffer_read(h, dst, n) : RingBuffer_peek(h, dst, n);
		HX_CHECK(r == want, "read-count", "%s(%u) with %u stored returned %u", opn[op], n, m->len, r);
		HX_CHECK(!memcmp(dst, m->q, r), "read-data", "%s(%u) returned other bytes than were written", opn[op], n);
		for (uint32_t i = r; i < n + 16; i++) HX_CHECK(dst[i] == 0xEE, "read-overrun", "%s(%u) wrote past the %u bytes it returned", opn[op], n, r);
		if (op == READ) { memmove(m->q, m->q + r, m->len - r); m->len -= r; }
		break;
	case DISCARD:
		want = n < m->len ? n : m->len;
		r = RingBuffer_discard(h, n);
		HX_CHECK(r == want, "discard-count", "discard(%u) with %u stored returned %u", n, m->len, r);
		memmove(m->q, m->q + r, m->len - r);
		m->len -= r;
		break;
	default:
		RingBuffer_clear(h);
		m->len = 0;
	}
	obs = hx_mix(obs, ((uint64_t)op << 40) ^ ((uint64_t)n << 20) ^ m->len);
	hx_trans(1);
	uint32_t rp = RingBuffer_current_read_position(h), wp = RingBuffer_current_write_position(h);
	HX_CHECK((wp - rp - m->len) % m->cap == 0, "positions", "the positions %u and %u are %u apart, %u bytes are stored", rp, wp, wp - rp, m->len);
	uint64_t st = hx_hash(rp, m->q, m->len);
	hx_state(hx_mix(st, ((uint64_t)m->cap << 32) | m->len));
	queries(h, m);
}

static void random_ops(ring_buffer_handle h, model_t* m, int depth)
{
	const uint32_t c = m->cap;
	uint32_t wl[] = { 1, 2, c - 1, c, c + 1 }, rl[] = { 1, 2, c, c + 1 }, pl[] = { 1, c + 1 }, dl[] = { 1, 2, c, c + 3 };
	for (int d = 0; d < depth; d++)
	{
		int k = hx_choose(16, "op");
		if (k < 5) step(h, m, WRITE, wl[k]);
		else if (k < 9) step(h, m, READ, rl[k - 5]);
		else if (k < 11) step(h, m, PEEK, pl[k - 9]);
		else if (k < 15) step(h, m, DISCARD, dl[k - 11]);
		else step(h, m, CLEAR, 0);
	}
	/* whatever is left comes out exactly */
	step(h, m, PEEK, m->cap + 1);
	step(h, m, READ, m->cap + 1);
	step(h, m, READ, 1);
}

static ring_buffer_handle mk(int how, uint32_t req, model_t* m, void** mem, uint32_t* memsz)
{
	ring_buffer_handle h;
	if (how == 0)
	{
		h = RingBuffer_create(req);
		*mem = NULL;
		HX_CHECK(h != NULL, "create", "RingBuffer_create(%u) failed", req);
		uint32_t p = 1;
		while (p < req) p <<= 1;
		m->cap = RingBuffer_real_capacity(h);
		HX_CHECK(m->cap == p, "create-capacity", "RingBuffer_create(%u) has capacity %u, next power of two is %u", req, m->cap, p);
	}
	else
	{
		*memsz = req;
		*mem = malloc(req); /* exactly that much: ASan sees any byte beyond */
		memset(*mem, 0x5A, req);
		h = RingBuffer_create_with_mem(*mem, req);
		if (!h) { free(*mem); *mem = NULL; return NULL; }
		m->cap = RingBuffer_real_capacity(h);
		HX_CHECK(m->cap && !(m->cap & (m->cap - 1)), "create-capacity", "capacity %u is not a power of two", m->cap);
		HX_CHECK(m->cap < req, "create-capacity", "capacity %u does not fit the %u bytes given", m->cap, req);
	}
	m->len = 0;
	next_byte = 1;
	obs = 0;
	return h;
}

static void fin(ring_buffer_handle h, void* mem)
{
	RingBuffer_destroy(&h);
	HX_CHECK(h == NULL, "destroy", "destroy did not reset the handle");
	RingBuffer_destroy(&h);
	if (mem) free(mem); /* double free if destroy released memory that is the caller's */
	sq_check_leaks("leak");
	hx_outcome(obs);
}

static void sequences(void)
{
	static const uint32_t reqs[] = { 4, 8, 5 };
	model_t m;
	void* mem;
	uint32_t ms;
	uint32_t req = reqs[hx_choose(HX_T(2, 3), "capacity")];
	int off = hx_choose(HX_T(3, 4), "start offset");
	ring_buffer_handle h = mk(0, req, &m, &mem, &ms);
	queries(h, &m);
	if (off) { step(h, &m, WRITE, (uint32_t)off); step(h, &m, DISCARD, (uint32_t)off); }
	random_ops(h, &m, HX_T(4, 5));
	fin(h, mem);
}

/* every requested size: capacity rule, fill, overflow, drain, at every offset */
static void sizes(void)
{
	model_t m;
	void* mem;
	uint32_t ms = 0;
	int how = hx_choose(2, "create / create_with_mem");
	uint32_t req = (uint32_t)hx_choose(HX_T(200, 1100), "size") + (how ? 1 : 3);
	ring_buffer_handle h = mk(how, req, &m, &mem, &ms);
	if (!h) { HX_CHECK(how && req < 128, "create", "create_with_mem(%u) failed", req); return; }
	uint32_t off = (uint32_t)hx_choose((int)(m.cap < 64 ? m.cap : 64), "offset");
	if (m.cap > 64) off = m.cap - off;
	step(h, &m, WRITE, off);
	step(h, &m, DISCARD, off);
	step(h, &m, WRITE, m.cap - 1);
	step(h, &m, WRITE, 3);
	step(h, &m, WRITE, 1);
	step(h, &m, PEEK, m.cap);
	step(h, &m, READ, m.cap / 2);
	step(h, &m, WRITE, m.cap);
	step(h, &m, DISCARD, 1);
	step(h, &m, READ, m.cap + 5);
	step(h, &m, READ, 5);
	fin(h, mem);
}

/* positions are 32-bit counters: the same sequences around their wrap-around */
static uint8_t* wmem;
static uint32_t wsz;
static uint8_t* wsnap;
static ring_buffer_handle wh;
static void wrap_setup(void)
{
	wsz = 256 + 128;
	wmem = malloc(wsz);
	wh = RingBuffer_create_with_mem(wmem, wsz);
	if (!wh || RingBuffer_real_capacity(wh) != 256) { wh = NULL; return; }
	static uint8_t buf[256];
	for (uint64_t i = 0; i < (1ULL << 24) - 1; i++)
	{
		if (RingBuffer_write(wh, buf, 256) != 256) return;
		if (RingBuffer_discard(wh, 256) != 256) return;
	}
	wsnap = malloc(wsz);
	memcpy(wsnap, wmem, wsz);
}
static void counter_wrap(void)
{
	model_t m = { .len = 0, .cap = 256 };
	if (!wmem) wrap_setup();
	if (!wh) { hx_fail("create-capacity", "create_with_mem(384) does not have capacity 256"); }
	HX_CHECK(wsnap != NULL, "long-history", "a write or discard of one full capacity failed somewhere in the first 2^24 rounds");
	memcpy(wmem, wsnap, wsz);
	next_byte = 1;
	static const uint32_t pre[] = { 0, 1, 100, 254, 255 };
	uint32_t p = pre[hx_choose(5, "start offset")];
	if (p) { step(wh, &m, WRITE, p); step(wh, &m, READ, p); }
	random_ops(wh, &m, HX_T(3, 4));
	hx_outcome(obs);
}

static void misuse(void)
{
	model_t m;
	void* mem;
	uint32_t ms;
	uint8_t b[8];
	uint32_t off = (uint32_t)hx_choose(9, "stored");
	ring_buffer_handle h = mk(0, 8, &m, &mem, &ms);
	if (off) step(h, &m, WRITE, off);
	HX_CHECK(RingBuffer_write(h, NULL, 3) == 0, "null", "write from NULL took bytes");
	HX_CHECK(RingBuffer_read(h, NULL, 3) == 0, "null", "read into NULL returned bytes");
	for (uint32_t i = 0; i < 10; i++) { (void)RingBuffer_peek(h, NULL, i); queries(h, &m); }
	HX_CHECK(RingBuffer_write(NULL, b, 3) == 0 && RingBuffer_read(NULL, b, 3) == 0, "null", "NULL handle accepted");
	HX_CHECK(RingBuffer_write(h, b, 0) == 0 && RingBuffer_read(h, b, 0) == 0 && RingBuffer_discard(h, 0) == 0, "zero", "zero-length call moved bytes");
	queries(h, &m);
	step(h, &m, READ, 9);
	fin(h, mem);
	HX_CHECK(!RingBuffer_create(0) && !RingBuffer_create_with_mem(NULL, 100) && !RingBuffer_create_with_mem(b, 8), "create-bad", "impossible ring created");
	sq_fail_alloc(1, true);
	HX_CHECK(!RingBuffer_create(16), "create-oom", "ring created without memory");
	sq_check_leaks("leak");
}

static void scale(void)
{
	uint32_t cap = 131072, off = (uint32_t[]){ 0, 65533, 131069 }[hx_choose(3, "offset")];
	uint32_t a = scale_n[hx_choose(NSCALE, "first write")], b = scale_n[hx_choose(NSCALE, "second write")], c = scale_n[hx_choose(NSCALE, "first read")];
	ring_buffer_handle h = RingBuffer_create(hx_choose(2, "size") ? cap : 65537);
	HX_CHECK(h && RingBuffer_real_capacity(h) == cap, "create-capacity", "a ring of 131072 bytes has another capacity");
	uint8_t* s = sq_malloc(3 * cap), *d = sq_malloc(3 * cap);
	uint64_t w = 0, rd = 0;
	patfill(s, 0, 3 * cap);
#define WR(n) do { uint32_t f_ = cap - (uint32_t)(w - rd), want_ = (n) < f_ ? (n) : f_; HX_CHECK(RingBuffer_write(h, s + w, (n)) == want_, "write-count", "write(%u) with %u free does not take %u", (n), f_, want_); w += want_; \
	HX_CHECK(RingBuffer_available_read(h) == w - rd && RingBuffer_available_write(h) == cap - (w - rd), "available-read", "the fill is wrong"); } while (0)
#define RD(n, peek) do { uint32_t l_ = (uint32_t)(w - rd), want_ = (n) < l_ ? (n) : l_; HX_CHECK((peek ? RingBuffer_peek(h, d, (n)) : RingBuffer_read(h, d, (n))) == want_, "read-count", "read(%u) of %u does not give %u", (n), l_, want_); \
	HX_CHECK(!patcmp(d, rd, want_), "read-data", "read(%u) at %llu returned other bytes than were written", (n), (unsigned long long)rd); if (!(peek)) rd += want_; } while (0)
	if (off) { WR(off); RD(off, 0); }
	WR(a); RD(a, 1); WR(b); RD(c, 0);
	uint32_t k = (uint32_t)(w - rd) / 2;
	HX_CHECK(RingBuffer_discard(h, k) == k, "discard-count", "discard(%u) reports another number", k);
	rd += k;
	RD(cap + 1, 0);
	hx_state(hx_mix(w, rd)); hx_outcome(hx_mix(w, rd)); hx_trans(6);
	sq_free(s), sq_free(d);
	RingBuffer_destroy(&h);
	sq_check_leaks("leak");
}
static void huge(void)
{
	uint32_t cap = (uint32_t[]){ 1 << 18, 1 << 20, 1 << 22 }[hx_choose(3, "capacity")], off = (uint32_t[]){ 0, cap / 2 + 5, cap - 3 }[hx_choose(3, "offset")];
	uint32_t L[] = { 1, cap / 2 + 1, cap - 1, cap }, a = L[hx_choose(4, "first write")], b = L[hx_choose(4, "second write")], c = L[hx_choose(4, "first read")];
	ring_buffer_handle h = RingBuffer_create(hx_choose(2, "size") ? cap : cap / 2 + 1);
	HX_CHECK(h && RingBuffer_real_capacity(h) == cap, "create-capacity", "a ring of %u bytes has another capacity", cap);
	uint8_t* s = sq_malloc(3 * cap), *d = sq_malloc(2 * cap);
	uint64_t w = 0, rd = 0;
	patfill(s, 0, 3 * cap);
	if (off) { WR(off); RD(off, 0); }
	WR(a); RD(a, 1); WR(b); RD(c, 0); RD(cap + 1, 0);
	hx_state(hx_mix(w, rd + cap)); hx_outcome(hx_mix(w, rd)); hx_trans(5);
	sq_free(s), sq_free(d);
	RingBuffer_destroy(&h);
	sq_check_leaks("leak");
}

/* caller memory of every size around the powers of two: the ring stays inside, all of its capacity is usable */
static void memsizes(void)
{
	uint32_t sz = (1u << (6 + hx_choose(14, "power"))) + (uint32_t)hx_choose(180, "offset") - 90u;
	if (sz > 1u << 20) sz = 1;
	uint8_t* mem = malloc(sz);
	ring_buffer_handle h = RingBuffer_create_with_mem(mem, sz);
	HX_CHECK(h || sz < 128, "create", "create_with_mem(%u) failed", sz);
	if (h)
	{
		uint32_t cap = RingBuffer_real_capacity(h);
		HX_CHECK(cap && !(cap & (cap - 1)) && cap < sz, "create-capacity", "the ring in %u bytes has capacity %u", sz, cap);
		uint8_t* s = sq_malloc(2 * cap), *d = sq_malloc(2 * cap);
		patfill(s, 0, 2 * cap);
		for (uint32_t r = 0; r < 3; r++)
		{
			HX_CHECK(RingBuffer_write(h, s + r, cap + 1) == cap && RingBuffer_is_full(h) && RingBuffer_available_write(h) == 0, "write-count", "an empty ring of %u does not take %u", cap, cap);
			HX_CHECK(RingBuffer_read(h, d, cap + 1) == cap && !memcmp(d, s + r, cap) && RingBuffer_is_empty(h), "read-data", "a full ring of %u does not give back what was written", cap);
			HX_CHECK(RingBuffer_write(h, s, cap / 2 + r) == cap / 2 + r && RingBuffer_discard(h, cap) == cap / 2 + r, "write-count", "half of a ring of %u is refused", cap);
		}
		sq_free(s), sq_free(d);
		RingBuffer_destroy(&h);
		hx_outcome(hx_mix(sz, cap)), hx_state(hx_mix(sz, cap)), hx_trans(12);
	}
	free(mem);
	sq_check_leaks("leak");
}
/* the same for very large memory: reserved address space, only touched where the ring does */
static void bigmem(void)
{
	uint64_t want = (1ull << (24 + hx_choose(9, "power"))) + (uint64_t)hx_choose(180, "offset") - 99u;
	uint32_t sz = want > UINT32_MAX ? UINT32_MAX : (uint32_t)want;
	uint8_t* mem = (uint8_t*)syscall(SYS_mmap, NULL, (size_t)sz + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
	if (mem == MAP_FAILED) hx_die("no address space");
	ring_buffer_handle h = RingBuffer_create_with_mem(mem, sz);
	HX_CHECK(h, "create", "create_with_mem(%u) failed", sz);
	uint32_t cap = RingBuffer_real_capacity(h);
	HX_CHECK(cap && !(cap & (cap - 1)) && cap < sz && cap >= sz / 4, "create-capacity", "the ring in %u bytes has capacity %u", sz, cap);
	HX_CHECK(RingBuffer_available_write(h) == cap && RingBuffer_available_read(h) == 0, "available", "an empty ring of %u has room for %u", cap, RingBuffer_available_write(h));
	char d[8] = { 0 };
	HX_CHECK(RingBuffer_write(h, "abcdef", 6) == 6 && RingBuffer_read(h, d, 8) == 6 && !strcmp(d, "abcdef"), "read-data", "a ring of %u loses what is written", cap);
	hx_outcome(hx_mix(sz, cap)), hx_state(hx_mix(sz, cap)), hx_trans(4);
	RingBuffer_destroy(&h);
	syscall(SYS_munmap, mem, (size_t)sz + 65536);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "large-memory", bigmem, 0, 0, "rings in caller memory of 2^k-99 .. 2^k+80 bytes, k up to 32" },
	{ "memory-sizes", memsizes, 0, 0, "rings in caller memory of 2^k-90 .. 2^k+89 bytes, k up to 19" },
	{ "misuse", misuse, 0, 0, "NULL/zero-length/impossible-size calls leave the contents alone; out of memory" },
	{ "sizes", sizes, 0, 0, "every requested size x offset: capacity rule, fill, overflow, drain (both constructors; caller memory is exact-size under ASan)" },
	{ "sequences", sequences, 0, 0, "all operation sequences over 16 operations, capacities 4 and 8, from several offsets" },
	{ "scale", scale, 0, 0, "writes and reads of 20 lengths from 255 to 131073 bytes on a ring of 131072, from three offsets" },
	{ "huge", huge, 0, 0, "the same with a few lengths on rings of 2^18, 2^20 and 2^22 bytes" },
	{ "counter-wrap", counter_wrap, 0, 0, "all operation sequences around the 2^32 wrap of the position counters (capacity 256)" },
};
const int hx_n_scenarios = 8;
