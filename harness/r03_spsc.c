/* R03: one producer thread and one consumer thread use a ring / queue at the
 * same time without any lock.  Everything accepted arrives exactly once, in
 * order, unmodified; an amount reported available can be transferred. */
#include "cx.h"
#include "ring/ringbuffer.h"
#include "ring/ring_buf.h"
#include "ring/msg_queue.h"
#include "ring/fixed_msg_queue.h"
#include "log/slog.h"
#include <pthread.h>

#define MAXOP 4
static int kind;                /* 0 RingBuffer 1 ring_buf 2 msg_queue 3 fixed_msg_queue */
static void* q;
static int nw, nr, wsz[MAXOP], rsz[MAXOP], rmode[MAXOP];
static unsigned char sent[256], got[256];
static int nsent, ngot;
static int cap;

static uint32_t w_room(void)
{
	switch (kind)
	{
	case 0: return RingBuffer_available_write(q);
	case 1: return (uint32_t)ring_buf_available_write(q);
	case 2: return msg_queue_available_push_bytes(q);
	default: return fixed_msg_queue_available_push_amount(q);
	}
}
static uint32_t r_have(void)
{
	switch (kind)
	{
	case 0: return RingBuffer_available_read(q);
	case 1: return (uint32_t)ring_buf_available_read(q);
	case 2: return msg_queue_available_pop_bytes(q);
	default: return fixed_msg_queue_available_pop_amount(q);
	}
}

/* frames: [len][bytes], so that message boundaries are part of the stream */
static void put_one(int n)
{
	unsigned char b[16];
	for (int i = 0; i < n; i++) b[i] = (unsigned char)(nsent + i + 1);
	uint32_t room = w_room();
	uint32_t r;
	switch (kind)
	{
	case 0:
		r = RingBuffer_write(q, b, (uint32_t)n);
		HX_CHECK(r <= (uint32_t)n, "write-too-much", "a write of %d bytes reports %u", n, r);
		HX_CHECK(r >= (room < (uint32_t)n ? room : (uint32_t)n), "room-not-usable", "%u byte(s) were free for the only writer, a write of %d stored %u", room, n, r);
		n = (int)r;
		break;
	case 1:
		r = (uint32_t)ring_buf_write(q, b, (size_t)n);
		HX_CHECK(r == 0 || r == (uint32_t)n, "partial-write", "a write of %d bytes reports %u", n, r);
		HX_CHECK(r || room < (uint32_t)n, "room-not-usable", "%u byte(s) were free for the only writer, a write of %d was refused", room, n);
		n = (int)r;
		break;
	case 2:
		r = msg_queue_push(q, b, (uint32_t)n);
		HX_CHECK(r == MSG_Q_CODE_SUCCESS || r == MSG_Q_CODE_FULL, "push-code", "push returns %u", r);
		HX_CHECK(r == MSG_Q_CODE_SUCCESS || room < (uint32_t)n + 4, "room-not-usable", "%u byte(s) were free for the only writer, a %d byte message was refused", room, n);
		if (r) return;
		sent[nsent++] = (unsigned char)(100 + n);
		for (int i = 0; i < n; i++) sent[nsent + i] = b[i];
		nsent += n;
		return;
	default:
		r = fixed_msg_queue_push(q, b);
		HX_CHECK(r || room < 1, "room-not-usable", "%u message(s) fit for the only writer, a push was refused", room);
		if (!r) return;
		break;
	}
	memcpy(sent + nsent, b, (size_t)n);
	nsent += n;
}

static void get_one(int n, int mode)
{
	unsigned char b[32], pk[32];
	memset(b, 0xEE, sizeof b);
	uint32_t have = r_have();
	uint32_t r;
	if ((int)have > cap) hx_fail("over-capacity", "%u available in a ring that holds %d", have, cap);
	switch (kind)
	{
	case 0:
	{
		uint32_t pr = 0;
		if (mode == 1) pr = RingBuffer_peek(q, pk, (uint32_t)n);
		r = mode == 2 ? RingBuffer_discard(q, (uint32_t)n) : RingBuffer_read(q, b, (uint32_t)n);
		HX_CHECK(r <= (uint32_t)n, "read-too-much", "a read of %d bytes reports %u", n, r);
		HX_CHECK(r >= (have < (uint32_t)n ? have : (uint32_t)n), "data-not-readable", "%u byte(s) were available to the only reader, a read of %d returned %u", have, n, r);
		if (mode == 1) HX_CHECK(pr <= r && !memcmp(pk, b, pr), "peek-differs", "a peek of the only reader saw other data than its next read");
		if (mode == 2) for (uint32_t i = 0; i < r; i++) b[i] = (unsigned char)(ngot + (int)i + 1);
		break;
	}
	case 1:
	{
		size_t pr = 0;
		if (mode == 1) pr = ring_buf_peek(q, pk, (size_t)n);
		r = (uint32_t)(mode == 2 ? ring_buf_discard(q, (size_t)n) : ring_buf_read(q, b, (size_t)n));
		HX_CHECK(r == 0 || r == (uint32_t)n, "partial-read", "a read of %d bytes reports %u", n, r);
		HX_CHECK(r || have < (uint32_t)n, "data-not-readable", "%u byte(s) were available to the only reader, a read of %d was refused", have, n);
		if (mode == 1 && pr) HX_CHECK(r == pr && !memcmp(pk, b, pr), "peek-differs", "a peek of the only reader saw other data than its next read");
		if (mode == 2) for (uint32_t i = 0; i < r; i++) b[i] = (unsigned char)(ngot + (int)i + 1);
		break;
	}
	case 2:
	{
		uint32_t sz = mode == 1 ? 1 : sizeof b - 1, nx = 0;
		if (mode != 0) nx = msg_queue_next_msg_size(q);
		msg_q_code_e c = msg_queue_pop(q, b + 1, &sz);
		if (c == MSG_Q_CODE_BUF_NOT_ENOUGH && mode == 1)
		{
			if (nx) HX_CHECK(nx == sz, "size-differs", "next message size %u, pop says %u", nx, sz);
			HX_CHECK(sz > 1 && sz < sizeof b, "size-wrong", "pop says the message needs %u bytes", sz);
			c = msg_queue_pop(q, b + 1, &sz);
			HX_CHECK(c == MSG_Q_CODE_SUCCESS, "pop-after-resize", "pop with the reported size returns %d", c);
			nx = sz;
		}
		HX_CHECK(c == MSG_Q_CODE_SUCCESS || c == MSG_Q_CODE_EMPTY || c == MSG_Q_CODE_AGAIN, "pop-code", "pop returns %d", c);
		if (c != MSG_Q_CODE_SUCCESS) { HX_CHECK(b[1] == 0xEE, "pop-wrote", "a failed pop wrote to the caller's buffer"); return; }
		int k = 0;
		while (k < 31 && b[1 + k] != 0xEE) k++;
		if (mode != 0 && nx) HX_CHECK((int)nx == k, "size-differs", "next message size %u, but the message has %d bytes", nx, k);
		b[0] = (unsigned char)(100 + k);
		r = (uint32_t)k + 1;
		break;
	}
	default:
		r = fixed_msg_queue_pop(q, b);
		HX_CHECK(r || have == 0, "data-not-readable", "%u message(s) were there for the only reader, a pop was refused", have);
		if (!r) { HX_CHECK(b[0] == 0xEE, "pop-wrote", "a failed pop wrote to the caller's buffer"); return; }
		r = 2;
		break;
	}
	memcpy(got + ngot, b, r);
	ngot += (int)r;
	HX_CHECK(b[r] == 0xEE || mode == 2 || kind == 2, "read-overrun", "more bytes were written to the reader's buffer than reported");
}

static void* producer(void* a)
{
	(void)a;
	for (int i = 0; i < nw; i++) put_one(wsz[i]);
	return NULL;
}

static void body(void* a)
{
	(void)a;
	pthread_t t;
	slog_set_min_level(LOG_LEVEL_OFF);
	int shift = hx_choose(kind == 3 ? 3 : 4, "start offset");
	if (kind == 0) { q = RingBuffer_create(4); cap = 4; }
	else if (kind == 1) { q = ring_buf_create(5); cap = 4; }
	else if (kind == 2)
	{
		q = msg_queue_create(16 + 8 * (uint32_t)hx_choose(2, "size") + (uint32_t)sizeof(void*) * 3);
		cap = q ? (int)msg_queue_available_push_bytes(q) : 0;
	}
	else { q = fixed_msg_queue_create(2, 32); cap = q ? (int)fixed_msg_queue_available_push_amount(q) : 0; }
	HX_CHECK(q != NULL, "create", "creation failed");
	/* move the wrap-around point, single threaded */
	if (kind == 0 && shift) { uint32_t z = 0; RingBuffer_write(q, &z, (uint32_t)shift); RingBuffer_discard(q, (uint32_t)shift); }
	if (kind == 1 && shift) { uint32_t z = 0; ring_buf_write(q, &z, (size_t)shift); ring_buf_discard(q, (size_t)shift); }
	if (kind == 2) for (int i = 0; i < shift; i++) { char z[4]; uint32_t s = 4; msg_queue_push(q, "ab", (uint32_t)(i & 1) + 1); msg_queue_pop(q, z, &s); }
	if (kind == 3)
	{ /* leave 0, 1 or cap-1 messages in it */
		int pre = shift == 2 ? cap - 1 : shift;
		for (int i = 0; i < pre; i++) put_one(2);
	}
	nw = nr = HX_T(2, 3);
	for (int i = 0; i < nw; i++)
	{
		static const int s0[] = { 1, 2, 3, 4 }, s2[] = { 1, 3, 6 };
		wsz[i] = kind == 3 ? 2 : kind == 2 ? s2[hx_choose(3, "message size")] : s0[hx_choose(i ? 4 : 3, "write size")];
	}
	for (int i = 0; i < nr; i++)
	{
		rsz[i] = kind >= 2 ? 0 : hx_choose(3, "read size") + 1;
		rmode[i] = kind == 3 ? 0 : hx_choose(kind == 2 ? 2 : i ? 2 : 3, "reader uses read / peek+read / discard");
	}
	pthread_create(&t, NULL, producer, NULL);
	for (int i = 0; i < nr; i++) get_one(rsz[i], rmode[i]);
	pthread_join(t, NULL);
	HX_CHECK((int)r_have() <= cap, "over-capacity", "holds more than it can");
	/* drain */
	int before;
	do { before = ngot; get_one(1, 0); } while (ngot != before);
	HX_CHECK(ngot == nsent && !memcmp(got, sent, (size_t)nsent), "stream-differs", "accepted %d byte(s), delivered %d byte(s)%s", nsent, ngot, ngot == nsent ? ", altered" : "");
	hx_outcome(hx_hash(7, got, (size_t)ngot));
	if (kind == 0) RingBuffer_destroy((ring_buffer_handle*)&q);
	else if (kind == 1) ring_buf_destroy((ring_handle*)&q);
	else if (kind == 2) msg_queue_destroy((msg_queue*)&q);
	else fixed_msg_queue_destroy((fixed_msg_queue*)&q);
	HX_CHECK(q == NULL, "destroy", "destroy leaves the handle");
}
static void go(int k)
{
	kind = k;
	cx_run(body, NULL);
	cx_check_leaks("leak");
}
static void s0(void) { go(0); }
static void s1(void) { go(1); }
static void s2(void) { go(2); }
static void s3(void) { go(3); }
#define D "a writer and a reader thread, every start offset, transfer size and reader style, all interleavings of the unsynchronised accesses up to the bound; afterwards the rest is drained and the streams compared"
const hx_scn_t hx_scenarios[] = {
	{ "RingBuffer", s0, 3, 4, D }, { "ring_buf", s1, 3, 4, D }, { "msg_queue", s2, 3, 4, D }, { "fixed_msg_queue", s3, 3, 4, D },
};
const int hx_n_scenarios = 4;
