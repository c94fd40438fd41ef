/* H01/H02: the message-queue handler (messages of any size).
 * PART 1: every accepted message is handled exactly once, in order, intact.
 * PART 2: status callbacks, stopping, destruction, failing creation. */
#include "cx.h"
#include "scale.h"
#include "ring/msg_queue_handler.h"
#include "log/slog.h"
#include <pthread.h>

#define MM 8
static msg_queue_handler H;
static int pushed[MM], npushed, handled[MM], nhandled, stop_at, ready, stopping, dead, in_cb, sizes[MM];
static pthread_mutex_t user_lock;

static void on_status(msg_q_handler_status_e st, void* u)
{
	HX_CHECK(u == (void*)0x77, "user-data", "a status callback gets user data %p", u);
	HX_CHECK(!dead, "callback-after-destroy", "status %d is reported after the handler was destroyed", st);
	cx_event("status", st, 0);
	if (st == MSG_Q_HANDLER_STATUS_READY_TO_GO)
	{
		HX_CHECK(ready == 0 && stopping == 0 && nhandled == 0, "ready-order", "'ready' is reported %d time(s), after %d message(s)", ready + 1, nhandled);
		ready++;
	}
	else
	{
		HX_CHECK(st == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP, "status-value", "status %d", st);
		HX_CHECK(ready == 1 && stopping == 0, "stop-order", "'about to stop' is reported %d time(s), 'ready' %d time(s)", stopping + 1, ready);
		stopping++;
	}
}

static int on_msg(queue_msg_t* m, void* u)
{
	HX_CHECK(u == (void*)0x77, "user-data", "a message callback gets user data %p", u);
	HX_CHECK(!dead, "callback-after-destroy", "a message is handled after the handler was destroyed");
	HX_CHECK(!in_cb, "callback-overlap", "two messages are handled at the same time");
	HX_CHECK(!stopping, "message-after-stop", "a message is handled after 'about to stop'");
	in_cb = 1;
	cx_event("message", m->what, m->obj_len);
	int id = m->what;
	HX_CHECK(id >= 0 && id < MM && m->arg1 == id * 3 + 1 && m->arg2 == -id && m->obj_len == sizes[id], "message-damaged", "message %d arrives as %d %d %d", id, m->arg1, m->arg2, m->obj_len);
	for (int i = 0; i < m->obj_len; i++)
		if (m->obj[i] != (char)(id * 7 + i)) hx_fail("payload-damaged", "byte %d of the payload of message %d is damaged", i, id);
	HX_CHECK(nhandled < MM, "too-many", "more messages are handled than were pushed");
	handled[nhandled++] = id;
	in_cb = 0;
	return stop_at == nhandled ? 1 : 0;
}

static msg_q_code_e push(int id, int len)
{
	union { queue_msg_t m; char raw[sizeof(queue_msg_t) + 6000]; } x;
	x.m.what = id, x.m.arg1 = id * 3 + 1, x.m.arg2 = -id, x.m.obj_len = len;
	sizes[id] = len;
	for (int i = 0; i < len; i++) x.m.obj[i] = (char)(id * 7 + i);
	uint32_t room = msg_queue_handler_available_push_bytes(H);
	int at = npushed;
	pushed[npushed++] = id; /* it may be handled before push returns */
	msg_q_code_e c = msg_queue_handler_push(H, &x.m);
	if (c != MSG_Q_CODE_SUCCESS)
	{
		HX_CHECK(at == npushed - 1, "harness", "pushes overlap");
		npushed--;
		for (int i = 0; i < nhandled; i++) HX_CHECK(handled[i] != id, "refused-delivered", "message %d was refused but is handled", id);
		if (c == MSG_Q_CODE_FULL) HX_CHECK(room < sizeof(queue_msg_t) + (size_t)len + 4, "full-wrong", "%u bytes are free but a message of %d is refused as full", room, len);
		else HX_CHECK(c == MSG_Q_CODE_NULL_HANDLE && stop_at, "push-code", "push returns %d", c);
	}
	return c;
}
static bool p_all(void* a) { (void)a; return nhandled >= npushed; }
static bool p_stopping(void* a) { (void)a; return stopping == 1; }
static bool p_ready(void* a) { (void)a; return ready == 1; }

static void prefix(void)
{
	HX_CHECK(nhandled <= npushed, "too-many", "%d messages handled, %d accepted", nhandled, npushed);
	for (int i = 0; i < nhandled; i++) HX_CHECK(handled[i] == pushed[i], "order", "message %d is handled as number %d instead of message %d", handled[i], i, pushed[i]);
}
static msg_queue_handler make(uint32_t bytes, bool status)
{
	static msg_queue_handler_init_param_t ip;
	memset(&ip, 0, sizeof ip);
	ip.user_data = (void*)0x77;
	ip.fn_handle_msg = on_msg;
	ip.fn_on_status_changed = status ? on_status : NULL;
	msg_queue_handler h = msg_queue_handler_create(bytes, &ip);
	memset(&ip, 0x5A, sizeof ip); /* the parameter block is only borrowed */
	return h;
}
static void destroy(void)
{
	msg_queue_handler_destroy(&H);
	HX_CHECK(H == NULL, "destroy", "destroy leaves the handle");
	dead = 1;
	HX_CHECK(!in_cb, "destroy-early", "destroy returned while a message was being handled");
	prefix();
	cx_event("destroyed", nhandled, 0);
	hx_outcome(hx_hash((uint64_t)(npushed * 16 + ready * 4 + stopping), handled, sizeof(int) * (size_t)nhandled));
}
static void run(void (*b)(void*))
{
	slog_set_min_level(LOG_LEVEL_OFF);
	npushed = nhandled = stop_at = ready = stopping = dead = in_cb = 0;
	cx_run(b, NULL);
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "sync-left", "%d synchronisation object(s) are left behind", cx_sync_left());
}

#if PART == 1
static void b_deliver(void* a)
{
	(void)a;
	H = make(96 + 64 * (uint32_t)hx_choose(2, "queue size"), hx_choose(2, "status callback") == 0);
	HX_CHECK(H != NULL, "create", "creation failed");
	int n = HX_T(3, 4), acc = 0;
	for (int i = 0; i < n; i++)
	{
		static const int L[] = { 0, 1, 13, 24 };
		if (push(i, L[hx_choose(HX_T(3, 4), "payload size")]) == MSG_Q_CODE_SUCCESS) acc++;
		if (i == 1 && hx_choose(2, "pause until handled")) cx_until(p_all, NULL, "main waits until everything is handled");
	}
	HX_CHECK(acc >= 1, "nothing-accepted", "an empty queue refuses a small message");
	cx_until(p_all, NULL, "main waits until every accepted message is handled");
	prefix();
	HX_CHECK(msg_queue_handler_available_pop_bytes(H) == 0, "bytes-left", "%u bytes are pending after everything was handled", msg_queue_handler_available_pop_bytes(H));
	destroy();
	HX_CHECK(nhandled == acc, "count", "%d accepted, %d handled", acc, nhandled);
}
static void b_big(void* a)
{
	(void)a;
	H = make(16384 + 256, true);
	int big[] = { 4096 - 16, 4096 - 15, 5000, 10 };
	int s = hx_choose(4, "first size"), t = hx_choose(4, "second size");
	HX_CHECK(push(0, big[s]) == MSG_Q_CODE_SUCCESS && push(1, big[t]) == MSG_Q_CODE_SUCCESS && push(2, 3) == MSG_Q_CODE_SUCCESS, "big-refused", "messages that fit are refused");
	cx_until(p_all, NULL, "main waits until every accepted message is handled");
	prefix();
	destroy();
}
static void* other(void* a)
{
	for (int i = 0; i < 2; i++)
	{
		pthread_mutex_lock(&user_lock);
		push(4 + i, 5);
		pthread_mutex_unlock(&user_lock);
	}
	return a;
}
static void b_two(void* a)
{
	(void)a;
	pthread_t t;
	pthread_mutex_init(&user_lock, NULL);
	H = make(96 + 64, true);
	pthread_create(&t, NULL, other, NULL);
	for (int i = 0; i < 2; i++)
	{
		pthread_mutex_lock(&user_lock);
		push(i, 4);
		pthread_mutex_unlock(&user_lock);
	}
	pthread_join(t, NULL);
	cx_until(p_all, NULL, "main waits until every accepted message is handled");
	prefix();
	destroy();
	pthread_mutex_destroy(&user_lock);
}
/* long messages, and thousands of messages through a queue that wraps many times */
static uint32_t big_n, seqno, got, mode;
static const uint32_t grow_len[] = { 10, 5000, 4080, 9000, 20000, 12, 40000, 33000, 70000, 140000, 100, 139999, 131072, 5 };
static size_t lenof(uint32_t i) { if (mode == 2) return grow_len[i % 14]; return mode ? (i * 37 + i / 9) % 211 : i & 1 ? i % 5 : big_n; }
static int on_big(queue_msg_t* m, void* u)
{
	HX_CHECK(u == (void*)0x78, "user-data", "a message callback gets user data %p", u);
	HX_CHECK(got < seqno && m->what == (int)got && m->arg1 == (int)(got * 3) && m->arg2 == -(int)got, "order", "message %d %d %d is handled as number %u of %u", m->what, m->arg1, m->arg2, got, seqno);
	HX_CHECK(m->obj_len == (int)lenof(got), "message-damaged", "message %u arrives with %d instead of %zu bytes", got, m->obj_len, lenof(got));
	HX_CHECK(!patcmp(m->obj, got * 11, lenof(got)), "payload-damaged", "the payload of message %u (%d bytes) is damaged", got, m->obj_len);
	got++;
	if (got % 64 == 0) cx_event("message", (long)got, 0);
	return 0;
}
static bool p_got(void* a) { (void)a; return got == seqno; }
static msg_q_code_e push_big(queue_msg_t* m)
{
	size_t l = lenof(seqno);
	m->what = (int)seqno, m->arg1 = (int)(seqno * 3), m->arg2 = -(int)seqno, m->obj_len = (int)l;
	patfill(m->obj, seqno * 11, l);
	seqno++;
	msg_q_code_e c = msg_queue_handler_push(H, m);
	if (c != MSG_Q_CODE_SUCCESS) seqno--;
	else memset(m->obj, 0x5A, l);
	return c;
}
static void b_scale(void* a)
{
	(void)a;
	cx_opt.no_prune = cx_opt.one_schedule = true, cx_opt.horizon = 4000000;
	mode = (uint32_t)hx_choose(3, "mode");
	seqno = got = 0;
	msg_queue_handler_init_param_t ip = { 0 };
	ip.user_data = (void*)0x78, ip.fn_handle_msg = on_big;
	queue_msg_t* m = malloc(sizeof *m + (1u << 18));
	if (!mode)
	{
		big_n = scale_n[hx_choose(NSCALE, "length")];
		uint32_t qs = big_n * 2 + 200;              /* what is kept of it is at least half */
		if (hx_choose(2, "queue size")) qs = 4 * big_n + 333;
		H = msg_queue_handler_create(qs, &ip);
		HX_CHECK(H != NULL, "create", "creation failed");
		for (int i = 0; i < 6; i++)
		{
			msg_q_code_e c = push_big(m);
			if (c != MSG_Q_CODE_SUCCESS)
			{
				HX_CHECK(c == MSG_Q_CODE_FULL, "push-code", "a message of %zu bytes is refused with %d by a queue of %u", lenof(seqno), c, qs);
				cx_until(p_got, NULL, "main waits until everything is handled");
				HX_CHECK((c = push_big(m)) == MSG_Q_CODE_SUCCESS, "push-code", "a message of %zu bytes is refused with %d by an empty queue of %u", lenof(seqno), c, qs);
			}
		}
	}
	else if (mode == 2)
	{	/* the receive buffer has to grow again and again, with smaller messages in between */
		H = msg_queue_handler_create(600000, &ip);
		HX_CHECK(H != NULL, "create", "creation failed");
		int pause = hx_choose(2, "wait for the handler"), first = hx_choose(14, "first");
		seqno = got = (uint32_t)first;
		for (int i = 0; i < 28; i++)
		{
			msg_q_code_e c = push_big(m);
			if (c == MSG_Q_CODE_FULL)
			{
				cx_until(p_got, NULL, "main waits until everything is handled");
				c = push_big(m);
			}
			HX_CHECK(c == MSG_Q_CODE_SUCCESS, "push-code", "a message of %zu bytes is refused with %d", lenof(seqno), c);
			if (pause) cx_until(p_got, NULL, "main waits until everything is handled");
		}
	}
	else
	{
		H = msg_queue_handler_create(8192, &ip);
		HX_CHECK(H != NULL, "create", "creation failed");
		int every = (int[]){ 1, 7, 100000 }[hx_choose(3, "wait for the handler")];
		for (int i = 0; i < 5000; i++)
		{
			msg_q_code_e c = push_big(m);
			if (c != MSG_Q_CODE_SUCCESS)
			{
				HX_CHECK(c == MSG_Q_CODE_FULL, "push-code", "message %d is refused with %d", i, c);
				cx_until(p_got, NULL, "main waits until everything is handled");
				HX_CHECK((c = push_big(m)) == MSG_Q_CODE_SUCCESS, "push-code", "message %d is refused with %d by an empty queue", i, c);
			}
			if (i % every == every - 1) cx_until(p_got, NULL, "main waits until everything is handled");
		}
	}
	cx_until(p_got, NULL, "main waits until everything is handled");
	HX_CHECK(msg_queue_handler_available_pop_bytes(H) == 0, "bytes-left", "bytes are pending after everything was handled");
	msg_queue_handler_destroy(&H);
	free(m);
	hx_outcome(hx_mix(seqno, big_n));
}
static void s3(void) { run(b_scale); }
static void s0(void) { run(b_deliver); }
static void s1(void) { run(b_big); }
static void s2(void) { run(b_two); }
const hx_scn_t hx_scenarios[] = {
	{ "deliver", s0, 3, 4, "3-4 messages of every size mix, a queue that fills up; the sender then waits until all accepted ones were handled" },
	{ "big", s1, 2, 3, "messages around and above the receiver's initial buffer size" },
	{ "two-senders", s2, 3, 4, "two sending threads that share a lock" },
	{ "scale", s3, 0, 0, "messages of 255 .. 131073 bytes; messages of ever changing size; 5000 messages through a queue that wraps many times" },
};
const int hx_n_scenarios = 4;
#else
static void b_stop(void* a)
{ /* destroy at any moment, with messages pending or being handled */
	(void)a;
	H = make(160, true);
	int n = hx_choose(4, "messages");
	for (int i = 0; i < n; i++) push(i, i);
	if (hx_choose(2, "wait for ready")) cx_until(p_ready, NULL, "main waits for 'ready'");
	destroy();
	HX_CHECK(ready == 1 && stopping == 1, "status-count", "'ready' was reported %d time(s), 'about to stop' %d time(s) when destroy returned", ready, stopping);
}
static void b_break(void* a)
{ /* a callback asks to stop */
	(void)a;
	stop_at = 1 + hx_choose(2, "message that asks to stop");
	H = make(160, true);
	push(0, 2);
	push(1, 2);
	push(2, 2);
	cx_until(p_stopping, NULL, "main waits for 'about to stop'");
	HX_CHECK(nhandled == stop_at, "stop-ignored", "%d messages handled, the handler asked to stop after %d", nhandled, stop_at);
	msg_q_code_e c = push(3, 1);
	HX_CHECK(c == MSG_Q_CODE_NULL_HANDLE, "push-after-stop", "push on a stopped handler returns %d", c);
	destroy();
	HX_CHECK(nhandled == stop_at && stopping == 1, "stop-ignored", "handled %d after the stop", nhandled);
}
static bool p_rest(void* a) { (void)a; return stopping || cx_blocked(1); }
static void b_oom(void* a)
{
	(void)a;
	int k = 1 + hx_choose(6, "which allocation fails");
	cx_fail_alloc(k, false);
	H = make(160, true);
	if (!H)
	{
		HX_CHECK(cx_alloc_fired(), "create", "creation failed without a reason");
		HX_CHECK(!ready || stopping, "thread-left", "creation failed but the handler thread is active");
		return;
	}
	cx_until(p_ready, NULL, "main waits for 'ready'");
	cx_until(p_rest, NULL, "main waits until the handler thread waits for messages or stops");
	if (cx_alloc_fired())
	{ /* the thread could not get its buffer: it reports that it stops */
		stop_at = 99;
		HX_CHECK(stopping, "thread-without-memory", "an allocation failed during start-up, yet the handler neither failed to be created nor reported that it stops");
		msg_q_code_e c = push(0, 5);
		HX_CHECK(c == MSG_Q_CODE_NULL_HANDLE, "push-after-stop", "push on a handler that has stopped returns %d", c);
	}
	else { push(0, 5); cx_until(p_all, NULL, "main waits until every accepted message is handled"); }
	destroy();
	HX_CHECK(ready == 1 && stopping == 1, "status-count", "'ready' was reported %d time(s), 'about to stop' %d time(s) when destroy returned", ready, stopping);
}
static bool p_stop_or_got(void* a) { (void)a; return stopping || nhandled == 2; }
static void b_oombig(void* a)
{ /* no memory to enlarge the receive buffer: the handler stops, nothing is damaged */
	(void)a;
	H = make(16384 + 256, true);
	cx_until(p_ready, NULL, "main waits for 'ready'");
	push(0, 3);
	cx_until(p_all, NULL, "handled");
	bool lasting = hx_choose(2, "lasting");
	cx_fail_alloc(1, lasting);
	push(1, 5000);
	stop_at = 99;
	cx_until(p_stop_or_got, NULL, "main waits for 'about to stop'");
	HX_CHECK(nhandled == 1 || !lasting, "count", "%d handled", nhandled);
	cx_fail_alloc(0, false);
	if (stopping)
	{
		msg_q_code_e c = push(2, 5);
		HX_CHECK(c == MSG_Q_CODE_NULL_HANDLE, "push-after-stop", "push on a handler that has stopped returns %d", c);
	}
	destroy();
}
static void b_eagain(void* a)
{
	(void)a;
	cx_fail_create(1);
	H = make(160, true);
	HX_CHECK(H == NULL, "created-without-thread", "creation succeeds although its thread could not be created");
	HX_CHECK(!ready && !stopping && !nhandled, "thread-left", "callbacks without a thread");
}
static int cb0(queue_msg_t* m, void* u) { (void)m; (void)u; return 0; }
static void b_args(void* a)
{
	(void)a;
	msg_queue_handler_init_param_t ip = { 0 };
	HX_CHECK(!msg_queue_handler_create(100, NULL) && !msg_queue_handler_create(100, &ip), "bad-arguments", "a handler without a callback is created");
	ip.fn_handle_msg = cb0;
	HX_CHECK(!msg_queue_handler_create(1, &ip) && !msg_queue_handler_create(8, &ip), "bad-arguments", "a handler without room for a message is created");
	queue_msg_t m = { 0 };
	HX_CHECK(msg_queue_handler_push(NULL, &m) == MSG_Q_CODE_NULL_HANDLE, "bad-arguments", "push without a handler");
	msg_queue_handler h = NULL;
	msg_queue_handler_destroy(&h);
	msg_queue_handler_destroy(NULL);
}
static void s0(void) { run(b_stop); }
static void s1(void) { run(b_break); }
static void s2(void) { run(b_oom); }
static void s3(void) { run(b_eagain); }
static void s4(void) { run(b_args); }
static void s5(void) { run(b_oombig); }
const hx_scn_t hx_scenarios[] = {
	{ "destroy-any-time", s0, 4, 6, "0-3 messages pushed, destroyed at every possible moment" },
	{ "callback-stops", s1, 3, 5, "a message callback returns non-zero" },
	{ "no-memory", s2, 3, 4, "every allocation of creation and start-up fails in turn" },
	{ "no-memory-to-grow", s5, 3, 4, "the receive buffer cannot be enlarged" },
	{ "no-thread", s3, 2, 2, "the thread cannot be created" },
	{ "arguments", s4, 0, 1, "missing arguments" },
};
const int hx_n_scenarios = 6;
#endif
