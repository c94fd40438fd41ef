/* R02 (PART 2): ring_buf is an all-or-nothing byte FIFO
 * R04 (PART 4): the auto-cover buffer keeps the newest bytes
 * R05 (PART 5): the message queue keeps message boundaries
 * R06 (PART 6): the fixed-size message queue is a bounded FIFO */
#include "seq.h"
#include "ring/ring_buf.h"
#include "ring/autocover_buffer.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "scale.h"

static uint64_t obs;
static uint8_t nb;
static void note(uint64_t op, uint64_t a, const void* st, size_t n)
{
	obs = hx_mix(hx_mix(obs, op), hx_mix(a, n));
	hx_trans(1);
	hx_state(hx_hash(n, st, n));
}
static void fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(nb + i); }

#if PART == 2
static uint8_t q[8192], src[8192], dst[8192];
static size_t len, cap;
static void queries(ring_handle h)
{
	HX_CHECK(ring_buf_available_read(h) == len, "available-read", "available_read=%zu with %zu bytes stored", ring_buf_available_read(h), len);
	HX_CHECK(ring_buf_available_write(h) == cap - len, "available-write", "available_write=%zu with %zu of %zu bytes free", ring_buf_available_write(h), cap - len, cap);
}
static void step(ring_handle h, int op, size_t n)
{
	static const char* const nm[] = { "write", "read", "peek", "discard", "clear" };
	hx_log("%s(%zu)  [holds %zu of %zu]", nm[op], n, len, cap);
	size_t r, want;
	switch (op)
	{
	case 0:
		fill(src, n < sizeof src ? n : 0);
		want = n <= cap - len ? n : 0;
		r = ring_buf_write(h, src, n);
		HX_CHECK(r == want, "write-count", "write(%zu) with %zu free reports %zu", n, cap - len, r);
		memcpy(q + len, src, r);
		len += r, nb += (uint8_t)r;
		break;
	case 1:
	case 2:
		memset(dst, 0xEE, sizeof dst);
		want = n <= len ? n : 0;
		r = op == 1 ? ring_buf_read(h, dst, n) : ring_buf_peek(h, dst, n);
		HX_CHECK(r == want, "read-count", "%s(%zu) with %zu stored reports %zu", nm[op], n, len, r);
		HX_CHECK(!memcmp(dst, q, r), "read-data", "%s(%zu) returned other bytes than were written", nm[op], n);
		for (size_t i = r; i < r + 32; i++) HX_CHECK(dst[i] == 0xEE, "read-overrun", "%s(%zu) wrote past the bytes it returned", nm[op], n);
		if (op == 1) { memmove(q, q + r, len - r); len -= r; }
		break;
	case 3:
		want = n <= len ? n : 0;
		r = ring_buf_discard(h, n);
		HX_CHECK(r == want, "discard-count", "discard(%zu) with %zu stored reports %zu", n, len, r);
		memmove(q, q + r, len - r); len -= r;
		break;
	default:
		ring_buf_clear(h);
		len = 0;
	}
	note((uint64_t)op, n, q, len);
	queries(h);
}
static ring_handle mk(int how, size_t size, void** mem)
{
	ring_handle h;
	*mem = NULL;
	if (how == 0) h = ring_buf_create(size);
	else
	{
		*mem = malloc(size);
		memset(*mem, 0x5A, size);
		h = ring_buf_create_with_mem(*mem, size);
	}
	nb = 1, len = 0, obs = 0;
	if (!h) { free(*mem); return NULL; }
	cap = ring_buf_available_write(h);
	if (how == 0) HX_CHECK(cap == size - 1, "capacity", "a ring of size %zu can hold %zu bytes instead of %zu", size, cap, size - 1);
	else HX_CHECK(cap && cap < size, "capacity", "a ring in %zu bytes of memory claims to hold %zu", size, cap);
	queries(h);
	return h;
}
static void fin(ring_handle h, void* mem)
{
	ring_buf_destroy(&h);
	HX_CHECK(!h, "destroy", "destroy did not reset the handle");
	ring_buf_destroy(&h);
	ring_buf_destroy(NULL);
	free(mem);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void sequences(void)
{
	void* mem;
	size_t size = (size_t)(4 + hx_choose(HX_T(3, 4), "size"));
	size_t off = (size_t)hx_choose((int)size, "offset");
	ring_handle h = mk(0, size, &mem);
	HX_CHECK(h, "create", "ring_buf_create(%zu) failed", size);
	for (size_t i = 0; i < off; i++) { step(h, 0, 1); step(h, 1, 1); }
	int depth = HX_T(4, 5);
	size_t c = cap;
	size_t wl[] = { 1, 2, c - 1, c, c + 1 }, rl[] = { 1, 2, c, c + 1 };
	for (int d = 0; d < depth; d++)
	{
		int k = hx_choose(16, "op");
		if (k < 5) step(h, 0, wl[k]);
		else if (k < 9) step(h, 1, rl[k - 5]);
		else if (k < 11) step(h, 2, k == 9 ? 1 : (len ? len : 1));
		else if (k < 15) step(h, 3, rl[k - 11]);
		else step(h, 4, 0);
	}
	if (len) { step(h, 2, len); step(h, 1, len); }
	fin(h, mem);
}
static void sizes(void)
{
	void* mem;
	int how = hx_choose(2, "create/create_with_mem");
	size_t size = (size_t)hx_choose(HX_T(260, 1200), "size");
	ring_handle h = mk(how, size, &mem);
	if (!h) { HX_CHECK(how ? size < 128 : size < 4, "create", "creation with size %zu failed", size); sq_check_leaks("leak"); return; }
	size_t off = (size_t)hx_choose((int)(cap < 40 ? cap + 1 : 40), "offset");
	if (cap > 40 && off) off = cap - off;
	if (off) { step(h, 0, off); step(h, 1, off); }
	size_t a = cap / 2 ? cap / 2 : 1;
	step(h, 0, a);
	step(h, 0, cap - a + 1);
	if (cap - a) step(h, 0, cap - a);
	step(h, 0, 1);
	step(h, 2, cap);
	step(h, 2, cap + 1);
	step(h, 1, a);
	step(h, 0, a);
	step(h, 3, cap + 1);
	step(h, 3, 1);
	if (len) step(h, 1, len);
	step(h, 1, 1);
	fin(h, mem);
}
static void misuse(void)
{
	void* mem;
	ring_handle h = mk(0, 8, &mem);
	int st = hx_choose(8, "stored");
	if (st) step(h, 0, (size_t)st);
	for (int op = 0; op < 4; op++) step(h, op, 0);
	static const size_t huge[] = { 8, 9, 64, (size_t)1 << 31, (size_t)1 << 32, SIZE_MAX - 8, SIZE_MAX - 1, SIZE_MAX };
	size_t n = huge[hx_choose(8, "length")];
	for (int op = 0; op < 4; op++) step(h, op, n);
	fin(h, mem);
	HX_CHECK(!ring_buf_create_with_mem(NULL, 100), "create-bad", "ring created in no memory");
	sq_fail_alloc(1, true);
	HX_CHECK(!ring_buf_create(16), "create-oom", "ring created without memory");
	sq_check_leaks("leak");
}
static void scale(void)
{
	size_t cap = 131072, off = (size_t[]){ 0, 65533, 131070 }[hx_choose(3, "offset")];
	size_t a = scale_n[hx_choose(NSCALE, "first write")], b = scale_n[hx_choose(NSCALE, "second write")], c = scale_n[hx_choose(NSCALE, "first read")];
	ring_handle h = ring_buf_create(cap + 1);
	HX_CHECK(h && ring_buf_available_write(h) == cap, "capacity", "a ring of 131073 bytes does not hold 131072");
	uint8_t* s = sq_malloc(3 * cap), *d = sq_malloc(3 * cap);
	uint64_t w = 0, rd = 0;
	patfill(s, 0, 3 * cap);
#define WR(n) do { size_t f_ = cap - (size_t)(w - rd), want_ = (n) <= f_ ? (n) : 0; HX_CHECK(ring_buf_write(h, s + w, (n)) == want_, "write-count", "write(%zu) with %zu free does not take %zu", (size_t)(n), f_, want_); w += want_; \
	HX_CHECK(ring_buf_available_read(h) == w - rd && ring_buf_available_write(h) == cap - (w - rd), "available-read", "the fill is wrong"); } while (0)
#define RD(n, peek) do { size_t l_ = (size_t)(w - rd), want_ = (n) <= l_ ? (n) : 0; HX_CHECK((peek ? ring_buf_peek(h, d, (n)) : ring_buf_read(h, d, (n))) == want_, "read-count", "read(%zu) of %zu does not give %zu", (size_t)(n), l_, want_); \
	HX_CHECK(!patcmp(d, rd, want_), "read-data", "read(%zu) at %llu returned other bytes than were written", (size_t)(n), (unsigned long long)rd); if (!(peek)) rd += want_; } while (0)
	if (off) { WR(off); RD(off, 0); }
	WR(a); RD(a, 1); WR(b); RD(c, 0);
	size_t k = (size_t)(w - rd) / 2;
	if (k) { HX_CHECK(ring_buf_discard(h, k) == k, "discard-count", "discard(%zu) reports another number", k); rd += k; }
	if (w > rd) RD((size_t)(w - rd), 0);
	note(9, off, &w, sizeof w); hx_outcome(hx_mix(w, rd));
	sq_free(s), sq_free(d);
	ring_buf_destroy(&h);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "writes and reads of 20 lengths from 255 to 131073 bytes on a ring that holds 131072, from three offsets" },
	{ "misuse", misuse, 0, 0, "zero and huge lengths at every fill level, impossible creations, out of memory" },
	{ "sizes", sizes, 0, 0, "every size x offset, both constructors (caller memory exact-size under ASan): fill, overflow, drain" },
	{ "sequences", sequences, 0, 0, "all operation sequences over 16 operations at every offset of rings of 4.. bytes" },
};
const int hx_n_scenarios = 4;

#elif PART == 4
static uint8_t stream[1 << 16], dst[4096];
static uint64_t T, R;           /* bytes written so far, oldest byte still kept */
static uint32_t cap;
static int depth_lock, nlock;
static int lk_acq(void* a) { HX_CHECK(a == (void*)&depth_lock, "lock-arg", "lock callback got another argument"); HX_CHECK(depth_lock == 0, "lock-twice", "the lock is taken twice"); depth_lock++; nlock++; return 0; }
static int lk_rel(void* a) { HX_CHECK(a == (void*)&depth_lock, "lock-arg", "lock callback got another argument"); HX_CHECK(depth_lock == 1, "lock-release", "the lock is released without being held"); depth_lock--; return 0; }
static uint64_t base;           /* position counter of the first byte of the model */
static auto_cover_buf_handle mk(uint32_t req, bool lock)
{
	auto_cover_buf_lock_t l = { &depth_lock, lk_acq, lk_rel };
	T = R = 0, nb = 1, obs = 0, depth_lock = nlock = 0;
	auto_cover_buf_handle h = auto_cover_buf_create(req, lock ? &l : NULL);
	memset(&l, 0x77, sizeof l);   /* the caller's struct need not live on */
	if (!h) return NULL;
	cap = 1;
	while (cap < req) cap <<= 1;
	return h;
}
static void wr(auto_cover_buf_handle h, uint32_t n)
{
	uint8_t* s = malloc(n);
	fill(s, n);
	hx_log("write(%u)  [bytes %llu..%llu kept]", n, (unsigned long long)R, (unsigned long long)T);
	int r = auto_cover_buf_write(h, s, n);
	HX_CHECK(r == (int)n, "write-count", "a write of %u bytes reports %d", n, r);
	memcpy(stream + T, s, n);
	free(s);
	T += n, nb += (uint8_t)n;
	if (T - R > cap) R = T - cap;
	HX_CHECK(depth_lock == 0, "lock-held", "write returned with the lock held");
	note(1, n, stream + R, T - R);
}
/* what a position means: the byte kept at that stream position modulo the capacity */
static int64_t at(uint32_t pos)
{
	for (uint64_t p = R; p < T; p++) if (((uint32_t)p & (cap - 1)) == (pos & (cap - 1))) return (int64_t)p;
	return -1;
}
static void avail(auto_cover_buf_handle h, uint32_t pos)
{
	int64_t p = at(pos);
	int r = auto_cover_buf_available_read(h, pos);
	if (p >= 0) HX_CHECK(r == (int)(T - (uint64_t)p), "available", "%d bytes available from position %u, but %llu are kept from there on", r, pos, (unsigned long long)(T - (uint64_t)p));
	else if (((uint32_t)T & (cap - 1)) == (pos & (cap - 1))) HX_CHECK(r == 0, "available-end", "%d bytes available at the write position %u", r, pos);
	else HX_CHECK(r == AUTO_COVER_BUF_ERR_DATA_COVERED, "covered", "position %u is not kept any more but %d is reported", pos, r);
	HX_CHECK(depth_lock == 0, "lock-held", "available_read returned with the lock held");
}
static void rd(auto_cover_buf_handle h, uint32_t pos, uint32_t n)
{
	int64_t p = at(pos);
	memset(dst, 0xEE, sizeof dst);
	int r = auto_cover_buf_read(h, pos, dst, n);
	hx_log("read(pos %u, %u) = %d  [bytes %llu..%llu kept]", pos, n, r, (unsigned long long)R, (unsigned long long)T);
	HX_CHECK(depth_lock == 0, "lock-held", "read returned with the lock held");
	if (p < 0)
	{
		bool end = ((uint32_t)T & (cap - 1)) == (pos & (cap - 1));
		HX_CHECK(r == (end ? AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH : AUTO_COVER_BUF_ERR_DATA_COVERED), end ? "not-yet" : "covered", "position %u is not kept, but read reports %d", pos, r);
		r = 0;
	}
	else if (T - (uint64_t)p < n) { HX_CHECK(r == AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, "not-enough", "only %llu bytes from position %u on, but read(%u) reports %d", (unsigned long long)(T - (uint64_t)p), pos, n, r); r = 0; }
	else
	{
		HX_CHECK(r == (int)n, "read-count", "read(%u) from a kept position reports %d", n, r);
		HX_CHECK(!memcmp(dst, stream + p, n), "read-data", "read(%u) at position %u returned other bytes than were written there", n, pos);
		R = (uint64_t)p + n;
	}
	for (int i = r; i < r + 64; i++) HX_CHECK(dst[i] == 0xEE, "read-overrun", "read(%u) wrote past the bytes it returned", n);
	note(2, ((uint64_t)pos << 32) | n, stream + R, T - R);
}
static void fin(auto_cover_buf_handle h, bool lock)
{
	for (uint32_t p = 0; p < cap && cap <= 64; p++) avail(h, (uint32_t)R + p);
	if (T > R) rd(h, (uint32_t)R, (uint32_t)(T - R));
	HX_CHECK(!lock || nlock > 0, "lock-unused", "the lock was never taken");
	auto_cover_buf_destroy(&h);
	HX_CHECK(!h, "destroy", "destroy did not reset the handle");
	auto_cover_buf_destroy(&h);
	auto_cover_buf_destroy(NULL);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void sequences(void)
{
	uint32_t off = (uint32_t)hx_choose(8, "offset");
	bool lock = hx_choose(2, "lock");
	auto_cover_buf_handle h = mk(8, lock);
	HX_CHECK(h, "create", "creation failed");
	while (T < off) wr(h, 1);
	if (hx_choose(2, "drain")) if (off) rd(h, off - 1, 1);
	int depth = HX_T(3, 4);
	static const uint32_t wl[] = { 1, 2, 5, 8 };
	for (int d = 0; d < depth; d++)
	{
		int k = hx_choose(4 + 8 * 4, "op");
		if (k < 4) wr(h, wl[k]);
		else
		{
			k -= 4;
			static const uint32_t rl[] = { 1, 2, 7, 8 };
			/* positions as a user has them: counted from the start of the stream, up to one capacity back */
			uint32_t pos = (uint32_t)T - 8 + (uint32_t)(k / 4) + 1;
			avail(h, pos);
			rd(h, pos, rl[k % 4]);
		}
	}
	fin(h, lock);
}
static void sizes(void)
{
	uint32_t req = (uint32_t)hx_choose(HX_T(130, 1030), "size") + 3;
	auto_cover_buf_handle h = mk(req, false);
	HX_CHECK(h, "create", "creation with %u bytes failed", req);
	uint32_t off = (uint32_t)hx_choose((int)(cap < 32 ? cap : 32), "offset");
	if (off) wr(h, off);
	wr(h, cap - 1);
	wr(h, 1);
	avail(h, (uint32_t)R); avail(h, (uint32_t)T - 1); avail(h, (uint32_t)T);
	wr(h, cap / 2);
	rd(h, (uint32_t)R, cap + 1);
	rd(h, (uint32_t)R + 1, cap - 1);
	avail(h, (uint32_t)T);
	wr(h, cap);
	avail(h, 0xFFFFFFFFu - (cap - 1) + (uint32_t)(R & (cap - 1)));
	rd(h, (uint32_t)T - 1, 2);
	rd(h, (uint32_t)T - 1, 1);
	wr(h, cap / 2);
	fin(h, false);
}
static void creation(void)
{
	int n = 0;
	for (int k = 1; ; k++)
	{
		sq_fail_alloc(k, hx_choose(2, "sticky"));
		auto_cover_buf_handle h = auto_cover_buf_create(64, NULL);
		if (!sq_alloc_fired()) { HX_CHECK(h, "create", "creation failed"); sq_fail_alloc(0, false); auto_cover_buf_destroy(&h); break; }
		n++;
		HX_CHECK(!h, "create-oom", "a buffer was created although allocation %d failed", k);
		sq_check_leaks("leak");
	}
	hx_outcome((uint64_t)n);
	sq_check_leaks("leak");
}
static void scale(void)
{
	uint32_t cap = 131072;
	auto_cover_buf_handle h = auto_cover_buf_create(hx_choose(2, "size") ? cap : 65537, NULL);
	HX_CHECK(h, "create", "creation failed");
	uint8_t* s = sq_malloc(4 * cap), *d = sq_malloc(cap + 8);
	uint64_t w = 0;
	patfill(s, 0, 4 * cap);
	for (int i = 0; i < 3; i++)
	{
		uint32_t n = scale_n[hx_choose(NSCALE - 1, "write")];
		HX_CHECK(auto_cover_buf_write(h, s + w, n) == (int)n, "write-count", "a write of %u bytes reports another number", n);
		w += n;
	}
	uint64_t r = w > cap ? w - cap : 0;
	for (int i = 0; i < 4; i++)
	{
		uint64_t p = i == 0 ? r : i == 1 ? r + (w - r) / 2 : i == 2 ? w - 1 : (w - 1) & ~(uint64_t)65535;
		if (p < r) continue;
		uint32_t n = (uint32_t)(w - p);
		HX_CHECK(auto_cover_buf_available_read(h, (uint32_t)p) == (int)n, "available", "%d bytes are available from %llu instead of %u", auto_cover_buf_available_read(h, (uint32_t)p), (unsigned long long)p, n);
		HX_CHECK(n == cap || auto_cover_buf_read(h, (uint32_t)p, d, n + 1) == AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, "not-enough", "more than was written can be read");
	}
	uint64_t p = r + (uint64_t)hx_choose(3, "from") * ((w - r) / 3);
	uint32_t n = (uint32_t)(w - p);
	HX_CHECK(auto_cover_buf_read(h, (uint32_t)p, d, n) == (int)n, "read-count", "read(%u) from %llu reports another number", n, (unsigned long long)p);
	HX_CHECK(!patcmp(d, p, n), "read-data", "read(%u) from %llu returned other bytes than were written there", n, (unsigned long long)p);
	note(9, n, &w, sizeof w); hx_outcome(hx_mix(w, p));
	sq_free(s), sq_free(d);
	auto_cover_buf_destroy(&h);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "three writes of 19 lengths from 255 to 131072 bytes on a buffer of 131072, read from three positions" },
	{ "creation", creation, 0, 0, "every failing allocation of the creation" },
	{ "sizes", sizes, 0, 0, "every size x offset: fill, cover, partial and refused reads" },
	{ "sequences", sequences, 0, 0, "all sequences of writes and positioned reads (36 operations) on a buffer of 8, with and without lock callbacks" },
};
const int hx_n_scenarios = 4;

#elif PART == 5
static struct { uint32_t n; uint8_t b[256]; } m[64];
static int cnt;
static uint32_t total, ov;
static void queries(msg_queue h)
{
	uint32_t used = 0;
	for (int i = 0; i < cnt; i++) used += m[i].n + ov;
	HX_CHECK(msg_queue_available_pop_bytes(h) == used, "pop-bytes", "%u bytes reported in use, %u are", msg_queue_available_pop_bytes(h), used);
	HX_CHECK(msg_queue_available_push_bytes(h) == total - used, "push-bytes", "%u bytes reported free, %u are", msg_queue_available_push_bytes(h), total - used);
	uint32_t nx = msg_queue_next_msg_size(h);
	HX_CHECK(nx == (cnt ? m[0].n : 0), "next-size", "next message size reported as %u, it is %u", nx, cnt ? m[0].n : 0);
}
static void push(msg_queue h, uint32_t n)
{
	uint8_t* s = malloc(n < 4096 ? n : 1);
	if (n < 4096) fill(s, n);
	uint64_t freeb = msg_queue_available_push_bytes(h);
	msg_q_code_e r = msg_queue_push(h, s, n);
	hx_log("push(%u bytes) = %d  [%d queued, %u free]", n, r, cnt, (unsigned)freeb);
	if ((uint64_t)n + ov <= freeb)
	{
		HX_CHECK(r == MSG_Q_CODE_SUCCESS, "push-refused", "a message of %u bytes is refused (%d) with %u bytes free", n, r, (unsigned)freeb);
		m[cnt].n = n;
		memcpy(m[cnt].b, s, n);
		cnt++, nb += (uint8_t)n;
	}
	else HX_CHECK(r == MSG_Q_CODE_FULL, "push-accepted", "push of %u bytes with %u bytes free returns %d", n, (unsigned)freeb, r);
	free(s);
	note(1, n, m, (size_t)cnt * sizeof m[0]);
	queries(h);
}
static void pop(msg_queue h, uint32_t room)
{
	uint8_t* d = malloc(room + 1);   /* ASan sees a write past room+1 */
	memset(d, 0xEE, room + 1);
	uint32_t sz = room;
	msg_q_code_e r = msg_queue_pop(h, d, &sz);
	hx_log("pop(room %u) = %d size %u  [%d queued]", room, r, sz, cnt);
	if (!cnt) HX_CHECK(r == MSG_Q_CODE_EMPTY, "pop-empty", "pop from an empty queue returns %d", r);
	else if (m[0].n > room)
	{
		HX_CHECK(r == MSG_Q_CODE_BUF_NOT_ENOUGH, "pop-small", "pop of %u bytes into %u bytes returns %d", m[0].n, room, r);
		HX_CHECK(sz == m[0].n, "pop-small-size", "pop into a small buffer reports %u bytes needed, the message has %u", sz, m[0].n);
	}
	else
	{
		HX_CHECK(r == MSG_Q_CODE_SUCCESS, "pop", "pop returns %d", r);
		HX_CHECK(sz == m[0].n, "pop-size", "pop reports a message of %u bytes, it has %u", sz, m[0].n);
		HX_CHECK(!memcmp(d, m[0].b, m[0].n), "pop-data", "the popped message differs from the pushed one");
		for (uint32_t i = m[0].n; i <= room; i++) HX_CHECK(d[i] == 0xEE, "pop-overrun", "pop wrote more than the message");
		memmove(m, m + 1, sizeof m[0] * (size_t)--cnt);
	}
	if (r != MSG_Q_CODE_SUCCESS) for (uint32_t i = 0; i <= room; i++) HX_CHECK(d[i] == 0xEE, "pop-wrote", "a refused pop wrote to the buffer");
	free(d);
	note(2, room, m, (size_t)cnt * sizeof m[0]);
	queries(h);
}
static msg_queue mk(uint32_t req)
{
	cnt = 0, nb = 1, obs = 0;
	msg_queue h = msg_queue_create(req);
	if (!h) return NULL;
	total = msg_queue_available_push_bytes(h);
	HX_CHECK(total <= req, "capacity", "a queue of %u bytes claims to hold %u", req, total);
	if (total < 8) { msg_queue_destroy(&h); return NULL; }
	HX_CHECK(msg_queue_push(h, "x", 1) == 0, "push-refused", "an empty queue refuses one byte");
	ov = total - msg_queue_available_push_bytes(h) - 1;
	HX_CHECK(ov < 64, "overhead", "a one-byte message takes %u bytes", ov + 1);
	uint32_t sz = 1;
	uint8_t b;
	HX_CHECK(msg_queue_pop(h, &b, &sz) == 0 && b == 'x', "pop", "the only message cannot be popped");
	queries(h);
	return h;
}
static void fin(msg_queue h)
{
	while (cnt) pop(h, m[0].n);
	pop(h, 4);
	msg_queue_destroy(&h);
	HX_CHECK(!h, "destroy", "destroy did not reset the handle");
	msg_queue_destroy(NULL);
	msg_queue_destroy(&h);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void sequences(void)
{
	msg_queue h = mk(HX_T(64, 64));
	HX_CHECK(h, "create", "msg_queue_create(64) failed");
	HX_CHECK(total >= 16, "capacity", "a queue of 64 bytes holds %u", total);
	uint32_t off = (uint32_t)hx_choose((int)(total), "offset");
	while (off > ov + 1) { uint32_t n = off > 2 * ov + 2 ? 1 : off - ov; push(h, n); pop(h, n); off -= n + ov; }
	int depth = HX_T(5, 6);
	uint32_t big = total - ov;
	for (int d = 0; d < depth; d++)
	{
		int k = hx_choose(9, "op");
		uint32_t wl[] = { 1, 3, big / 2, big, big + 1 };
		if (k < 5) push(h, wl[k]);
		else if (k == 5) pop(h, 1);
		else if (k == 6) pop(h, cnt ? m[0].n : 2);
		else if (k == 7) pop(h, cnt && m[0].n > 1 ? m[0].n - 1 : 64);
		else { msg_queue_clear(h); cnt = 0; note(3, 0, m, 0); queries(h); }
	}
	fin(h);
}
static void sizes(void)
{
	uint32_t req = (uint32_t)hx_choose(HX_T(300, 2000), "buffer size");
	msg_queue h = mk(req);
	if (!h) { HX_CHECK(req < 128, "create", "msg_queue_create(%u) failed", req); sq_check_leaks("leak"); return; }
	uint32_t big = total - ov;
	uint32_t n = 1 + (uint32_t)hx_choose(big > 200 ? 200 : (int)big, "message size");
	int turns = 3;
	while (turns--)
	{
		while (msg_queue_available_push_bytes(h) >= n + ov && cnt < 60) push(h, n);
		if (cnt < 60) push(h, n);
		pop(h, n - 1);
		pop(h, n);
		for (uint32_t more = 0; cnt && more < 10; more++) pop(h, n + more);
	}
	static const uint32_t huge[] = { 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFF0u, 0xFFFFFFFBu, 0xFFFFFFFCu, 0xFFFFFFFDu, 0xFFFFFFFFu };
	for (int i = 0; i < 8; i++) push(h, huge[i]);
	HX_CHECK(msg_queue_push(h, NULL, 3) != 0 && msg_queue_push(h, "x", 0) != 0 && msg_queue_push(NULL, "x", 1) != 0, "bad-push", "an impossible push is accepted");
	HX_CHECK(msg_queue_pop(NULL, &n, &n) != 0 && msg_queue_pop(h, NULL, &n) != 0 && msg_queue_pop(h, &n, NULL) != 0 && msg_queue_next_msg_size(NULL) == 0, "bad-pop", "an impossible pop succeeds");
	queries(h);
	fin(h);
	sq_fail_alloc(1, true);
	HX_CHECK(!msg_queue_create(req), "create-oom", "queue created without memory");
	sq_check_leaks("leak");
}
static void scale(void)
{
	msg_queue h = msg_queue_create(1 << 18);
	HX_CHECK(h, "create", "msg_queue_create(262144) failed");
	uint32_t tot = msg_queue_available_push_bytes(h);
	uint8_t* s = sq_malloc(1 << 19), *d = sq_malloc(1 << 19);
	patfill(s, 0, 1 << 19);
	uint32_t n[3];
	int k = 0;
	for (int turn = 0; turn < 2; turn++)
	{
		uint32_t used = 0;
		for (k = 0; k < 3; k++)
		{
			n[k] = turn && k ? scale_n[19 - 9 * k] : turn || k == 2 ? scale_n[hx_choose(5, "length") * 4 + 3] : scale_n[hx_choose(NSCALE, "length")];
			uint32_t fr = msg_queue_available_push_bytes(h);
			HX_CHECK(fr == tot - used, "push-bytes", "%u bytes are free instead of %u", fr, tot - used);
			msg_q_code_e r = msg_queue_push(h, s + 1000 * k, n[k]);
			if (r == MSG_Q_CODE_FULL && fr < n[k] + 64) break;
			HX_CHECK(r == MSG_Q_CODE_SUCCESS, "push-refused", "a message of %u bytes is refused (%d) with %u bytes free", n[k], r, fr);
			used = msg_queue_available_pop_bytes(h);
			HX_CHECK(used + msg_queue_available_push_bytes(h) == tot, "push-bytes", "free and used bytes do not add up");
		}
		for (int i = 0; i < k; i++)
		{
			uint32_t sz = n[i] - 1;
			HX_CHECK(msg_queue_next_msg_size(h) == n[i], "next-size", "next message size reported as %u, it is %u", msg_queue_next_msg_size(h), n[i]);
			HX_CHECK(msg_queue_pop(h, d, &sz) == MSG_Q_CODE_BUF_NOT_ENOUGH && sz == n[i], "pop-small", "pop of %u bytes into one less is not refused", n[i]);
			sz = 1 << 19;
			HX_CHECK(msg_queue_pop(h, d, &sz) == MSG_Q_CODE_SUCCESS && sz == n[i], "pop-size", "pop reports %u bytes, the message has %u", sz, n[i]);
			HX_CHECK(!patcmp(d, 1000 * (uint64_t)i, n[i]), "pop-data", "the popped message of %u bytes differs from the pushed one", n[i]);
		}
		HX_CHECK(msg_queue_available_push_bytes(h) == tot, "push-bytes", "an emptied queue is not empty");
	}
	note(9, n[0], n, sizeof n); hx_outcome(hx_mix(n[0], n[1]));
	sq_free(s), sq_free(d);
	msg_queue_destroy(&h);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "scale", scale, 0, 0, "three messages of 20 lengths from 255 to 131073 bytes, twice, in a queue of 262144" },
	{ "sizes", sizes, 0, 0, "every buffer size x message size: fill, refuse, drain; huge and impossible arguments; out of memory" },
	{ "sequences", sequences, 0, 0, "all sequences of 9 operations (message sizes 1 to larger than the queue, exact/small/large pop buffers, clear) from every offset" },
};
const int hx_n_scenarios = 3;

#else
static uint8_t m[4096][64];
static uint32_t cnt, cap, one;
static void queries(fixed_msg_queue h)
{
	HX_CHECK(fixed_msg_queue_available_pop_amount(h) == cnt, "pop-amount", "%u messages reported, %u are queued", fixed_msg_queue_available_pop_amount(h), cnt);
	HX_CHECK(fixed_msg_queue_available_push_amount(h) == cap - cnt, "push-amount", "room for %u messages reported, there is room for %u", fixed_msg_queue_available_push_amount(h), cap - cnt);
	HX_CHECK(fixed_msg_queue_is_empty(h) == (cnt == 0), "is-empty", "is_empty wrong with %u queued", cnt);
	HX_CHECK(fixed_msg_queue_is_full(h) == (cnt == cap), "is-full", "is_full wrong with %u of %u queued", cnt, cap);
}
static void push(fixed_msg_queue h)
{
	uint8_t* s = malloc(one);
	fill(s, one);
	bool r = fixed_msg_queue_push(h, s);
	hx_log("push = %d  [%u of %u]", r, cnt, cap);
	HX_CHECK(r == (cnt < cap), "push", "push returns %d with %u of %u queued", r, cnt, cap);
	if (r) { memcpy(m[cnt++], s, one); nb += 7; }
	free(s);
	note(1, r, m, cnt * sizeof m[0]);
	queries(h);
}
static void pop(fixed_msg_queue h)
{
	uint8_t* d = malloc(one);
	memset(d, 0xEE, one);
	bool r = fixed_msg_queue_pop(h, d);
	hx_log("pop = %d  [%u of %u]", r, cnt, cap);
	HX_CHECK(r == (cnt > 0), "pop", "pop returns %d with %u queued", r, cnt);
	if (r)
	{
		HX_CHECK(!memcmp(d, m[0], one), "pop-data", "the popped message differs from the oldest pushed one");
		memmove(m, m + 1, sizeof m[0] * --cnt);
	}
	else for (uint32_t i = 0; i < one; i++) HX_CHECK(d[i] == 0xEE, "pop-wrote", "a refused pop wrote to the buffer");
	free(d);
	note(2, r, m, cnt * sizeof m[0]);
	queries(h);
}
static fixed_msg_queue mk(uint32_t o, uint32_t n)
{
	one = o, cnt = 0, nb = 1, obs = 0;
	fixed_msg_queue h = fixed_msg_queue_create(o, n);
	if (!h) return NULL;
	cap = fixed_msg_queue_available_push_amount(h);
	HX_CHECK(cap == n, "capacity", "a queue for %u messages claims room for %u", n, cap);
	queries(h);
	return h;
}
static void fin(fixed_msg_queue h)
{
	while (cnt) pop(h);
	pop(h);
	fixed_msg_queue_destroy(&h);
	HX_CHECK(!h, "destroy", "destroy did not reset the handle");
	fixed_msg_queue_destroy(&h);
	fixed_msg_queue_destroy(NULL);
	sq_check_leaks("leak");
	hx_outcome(obs);
}
static void sequences(void)
{
	static const uint32_t sz[] = { 1, 3, 4, 8, 16 };
	uint32_t o = sz[hx_choose(5, "message size")];
	fixed_msg_queue h = mk(o, (24 + o) / o + 1);
	HX_CHECK(h && cap > 1, "create", "queue creation failed");
	uint32_t off = (uint32_t)hx_choose(64 / (int)o + 3, "offset"), fl = (uint32_t)hx_choose(3, "fill");
	for (uint32_t i = 0; i < off; i++) { push(h); pop(h); }
	fl = fl == 0 ? 0 : fl == 1 ? cap - 1 : cap;
	while (cnt < fl) push(h);
	int depth = HX_T(7, 11);
	for (int d = 0; d < depth; d++)
		switch (hx_choose(3, "op"))
		{
		case 0: push(h); break;
		case 1: pop(h); break;
		default: fixed_msg_queue_clear(h); cnt = 0; note(3, 0, m, 0); queries(h);
		}
	fin(h);
}
static void sizes(void)
{
	uint32_t o = 1 + (uint32_t)hx_choose(HX_T(34, 60), "message size"), n = 1 + (uint32_t)hx_choose(HX_T(70, 160), "messages");
	fixed_msg_queue h = mk(o, n);
	HX_CHECK(h, "create", "queue for %u messages of %u bytes cannot be created", n, o);
	for (int t = 0; t < 3; t++)
	{
		while (cnt < cap) push(h);
		push(h);
		pop(h);
		push(h);
		for (uint32_t i = cap / 2; i && cnt; i--) pop(h);
		pop(h);
	}
	HX_CHECK(!fixed_msg_queue_pop(h, NULL), "pop-null", "pop to NULL succeeds");
	queries(h);
	fin(h);
	HX_CHECK(!fixed_msg_queue_create(0, n) && !fixed_msg_queue_create(o, 0), "create-bad", "impossible queue created");
	sq_fail_alloc(1 + hx_choose(2, "failing allocation"), true);
	h = fixed_msg_queue_create(o, n);
	HX_CHECK(!h == !!sq_alloc_fired(), "create-oom", "queue created without memory");
	fixed_msg_queue_destroy(&h);
	sq_check_leaks("leak");
}
static void scale(void)
{
	uint32_t a = (uint32_t)hx_choose(NSCALE, "size"), o, n;
	if (hx_choose(2, "many or large")) o = 8, n = scale_n[a];
	else o = scale_n[a], n = 5;
	fixed_msg_queue h = fixed_msg_queue_create(o, n);
	HX_CHECK(h, "create", "queue for %u messages of %u bytes cannot be created", n, o);
	uint32_t c = fixed_msg_queue_available_push_amount(h), w = 0, r = 0;
	HX_CHECK(c == n, "capacity", "a queue for %u messages claims room for %u", n, c);
	uint8_t* s = sq_malloc(o), *d = sq_malloc(o);
	for (int turn = 0; turn < 3; turn++)
	{
		while (w - r < c) { patfill(s, 77 * w, o); HX_CHECK(fixed_msg_queue_push(h, s), "push", "push %u is refused with %u of %u queued", w, w - r, c); w++; }
		HX_CHECK(!fixed_msg_queue_push(h, s) && fixed_msg_queue_is_full(h) && fixed_msg_queue_available_pop_amount(h) == c, "push", "a full queue of %u takes one more, or is not full", c);
		for (uint32_t k = turn == 0 ? c / 3 : c; k; k--) { HX_CHECK(fixed_msg_queue_pop(h, d) && !patcmp(d, 77 * (uint64_t)r, o), "pop-data", "message %u is not popped as it was pushed", r); r++; }
		HX_CHECK(fixed_msg_queue_available_pop_amount(h) == w - r && fixed_msg_queue_available_push_amount(h) == c - (w - r), "pop-amount", "the amounts are wrong");
	}
	HX_CHECK(!fixed_msg_queue_pop(h, d), "pop", "an empty queue gives a message");
	note(9, n, &o, sizeof o); hx_outcome(hx_mix(o, n));
	sq_free(s), sq_free(d);
	fixed_msg_queue_destroy(&h);
	sq_check_leaks("leak");
}
/* more bytes than 32 bits can count: refused, or really there */
static void huge(void)
{
	static const uint32_t l[][2] = { { 3, 0x55555556 }, { 0x10000, 0x10000 }, { 0x10000, 0x10001 }, { 1040, 4129777 }, { 0xFFFFFFFF, 2 }, { 0x80000001, 2 }, { 2, 0x80000001 }, { 0xFFFFFFF0, 1 }, { 1, 0xFFFFFFFF }, { 0xFFFFFFFF, 0xFFFFFFFF }, { 16, 0x10000001 } };
	int k = hx_choose((int)(sizeof l / sizeof *l), "message size, messages");
	fixed_msg_queue h = fixed_msg_queue_create(l[k][0], l[k][1]);
	if (h) HX_CHECK(fixed_msg_queue_available_push_amount(h) == l[k][1], "capacity", "a queue for %u messages of %u bytes claims room for %u", l[k][1], l[k][0], fixed_msg_queue_available_push_amount(h));
	note(10, !!h, l[k], sizeof l[k]);
	fixed_msg_queue_destroy(&h);
	sq_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "huge", huge, 0, 0, "message sizes and counts whose product is beyond 31 or 32 bits" },
	{ "scale", scale, 0, 0, "messages of 20 sizes from 255 to 131073 bytes; 20 counts from 255 to 131073" },
	{ "sizes", sizes, 0, 0, "every message size x message count: fill, refuse, drain; impossible creations; out of memory" },
	{ "sequences", sequences, 0, 0, "all push/pop/clear sequences from every offset, empty, nearly full and full" },
};
const int hx_n_scenarios = 4;
#endif
