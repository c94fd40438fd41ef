/* H03: the fixed-size message-queue handler, including clear. */
#include "cx.h"
#include "ring/fixed_msg_queue_handler.h"
#include "log/slog.h"
#include <pthread.h>

#define MM 8
static fixed_msg_queue_handler H;
static int pushed[MM], npushed, handled[MM], nhandled, stop_at, ready, stopping, dead, in_cb, cleared, sizes[MM];
static fixed_msg_t X[2];

static void on_status(msg_q_handler_status_e st, void* u)
{
	HX_CHECK(u == (void*)0x77, "user-data", "a status callback gets user data %p", u);
	HX_CHECK(!dead, "callback-after-destroy", "status %d is reported after the handler was destroyed", st);
	cx_event("status", st, 0);
	if (st == MSG_Q_HANDLER_STATUS_READY_TO_GO)
	{
		HX_CHECK(ready == 0 && stopping == 0 && nhandled == 0, "ready-order", "'ready' is reported %d time(s), after %d message(s)", ready + 1, nhandled);
		ready++;
	}
	else
	{
		HX_CHECK(st == MSG_Q_HANDLER_STATUS_ABOUT_TO_STOP, "status-value", "status %d", st);
		HX_CHECK(ready == 1 && stopping == 0, "stop-order", "'about to stop' is reported %d time(s), 'ready' %d time(s)", stopping + 1, ready);
		stopping++;
	}
}
static int last_handled_any(int id) { for (int i = 0; i < nhandled; i++) if (handled[i] == id) return 1; return 0; }
static int on_msg(fixed_msg_t* m, void* u)
{
	HX_CHECK(u == (void*)0x77, "user-data", "a message callback gets user data %p", u);
	HX_CHECK(!dead, "callback-after-destroy", "a message is handled after the handler was destroyed");
	HX_CHECK(!in_cb, "callback-overlap", "two messages are handled at the same time");
	HX_CHECK(!stopping, "message-after-stop", "a message is handled after 'about to stop'");
	in_cb = 1;
	int id = m->what;
	HX_CHECK(id >= 0 && id < MM && m->arg1 == id * 3 + 1 && m->arg2 == -id && m->obj.data_len == sizes[id], "message-damaged", "message %d arrives as %d %d %d", id, m->arg1, m->arg2, m->obj.data_len);
	for (int i = 0; i < MSG_OBJ_MAX_CAPACITY; i++)
		if (m->obj.data[i] != (char)(id * 7 + i)) hx_fail("payload-damaged", "byte %d of the payload of message %d is damaged", i, id);
	HX_CHECK(!last_handled_any(id), "handled-twice", "message %d is handled twice", id);
	HX_CHECK(nhandled < MM, "too-many", "more messages are handled than were pushed");
	handled[nhandled++] = id;
	cx_event("message", id, cleared);
	in_cb = 0;
	return stop_at == nhandled ? 1 : 0;
}
static msg_q_code_e push(int id)
{
	fixed_msg_t* m = &X[0];
	m->what = id, m->arg1 = id * 3 + 1, m->arg2 = -id, m->obj.data_len = sizes[id] = id * 2;
	for (int i = 0; i < MSG_OBJ_MAX_CAPACITY; i++) m->obj.data[i] = (char)(id * 7 + i);
	/* nobody else pushes, so the room can only grow and what is pending can only shrink */
	uint32_t r0 = fixed_msg_queue_handler_available_push_amount(H);
	bool full = fixed_msg_queue_handler_is_full(H);
	uint32_t room = fixed_msg_queue_handler_available_push_amount(H);
	HX_CHECK(!(full && r0) && (full || room), "is-full", "is_full is %d with room for %u, then %u", full, r0, room);
	uint32_t w0 = fixed_msg_queue_handler_available_pop_amount(H);
	bool empty = fixed_msg_queue_handler_is_empty(H);
	uint32_t w1 = fixed_msg_queue_handler_available_pop_amount(H);
	HX_CHECK(!(empty && w1) && (empty || w0) && r0 <= room && w0 >= w1, "is-empty", "is_empty is %d with %u pending, then %u", empty, w0, w1);
	pushed[npushed++] = id;
	msg_q_code_e c = fixed_msg_queue_handler_push(H, m);
	memset(m, 0x5A, sizeof *m);
	if (c != MSG_Q_CODE_SUCCESS)
	{
		npushed--;
		HX_CHECK(!last_handled_any(id), "refused-delivered", "message %d was refused but is handled", id);
		if (c == MSG_Q_CODE_FULL) HX_CHECK(room == 0, "full-wrong", "%u messages fit but the push is refused", room);
		else HX_CHECK(c == MSG_Q_CODE_NULL_HANDLE && stop_at, "push-code", "push returns %d", c);
	}
	return c;
}
static bool p_all(void* a) { (void)a; return nhandled >= npushed; }
static bool p_last(void* a) { return last_handled_any((int)(long)a); }
static bool p_stopping(void* a) { (void)a; return stopping == 1; }
static bool p_ready(void* a) { (void)a; return ready == 1; }
static void prefix(void)
{
	HX_CHECK(nhandled <= npushed, "too-many", "%d messages handled, %d accepted", nhandled, npushed);
	for (int i = 0; i < nhandled; i++) HX_CHECK(handled[i] == pushed[i], "order", "message %d is handled as number %d instead of message %d", handled[i], i, pushed[i]);
}
static fixed_msg_queue_handler make(uint32_t n, bool status)
{
	static fixed_msg_queue_handler_init_param_t ip;
	memset(&ip, 0, sizeof ip);
	ip.user_data = (void*)0x77;
	ip.fn_handle_msg = on_msg;
	ip.fn_on_status_changed = status ? on_status : NULL;
	fixed_msg_queue_handler h = fixed_msg_queue_handler_create(n, &ip);
	memset(&ip, 0x5A, sizeof ip);
	return h;
}
static void destroy(void)
{
	fixed_msg_queue_handler_destroy(&H);
	HX_CHECK(H == NULL, "destroy", "destroy leaves the handle");
	dead = 1;
	HX_CHECK(!in_cb, "destroy-early", "destroy returned while a message was being handled");
	cx_event("destroyed", nhandled, 0);
	hx_outcome(hx_hash((uint64_t)(npushed * 16 + ready * 4 + stopping), handled, sizeof(int) * (size_t)nhandled));
}
static void run(void (*b)(void*))
{
	slog_set_min_level(LOG_LEVEL_OFF);
	npushed = nhandled = stop_at = ready = stopping = dead = in_cb = cleared = 0;
	cx_run(b, NULL);
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "sync-left", "%d synchronisation object(s) are left behind", cx_sync_left());
}
static void b_deliver(void* a)
{
	(void)a;
	H = make(3 - (uint32_t)hx_choose(2, "capacity"), hx_choose(2, "status callback") == 0);
	HX_CHECK(H != NULL, "create", "creation failed");
	int n = HX_T(4, 6), acc = 0;
	for (int i = 0; i < n; i++)
	{
		if (push(i) == MSG_Q_CODE_SUCCESS) acc++;
		if (i == 1 && hx_choose(2, "pause until handled")) cx_until(p_all, NULL, "main waits until everything is handled");
	}
	HX_CHECK(acc >= 1, "nothing-accepted", "an empty queue refuses a message");
	cx_until(p_all, NULL, "main waits until every accepted message is handled");
	prefix();
	HX_CHECK(fixed_msg_queue_handler_is_empty(H) && fixed_msg_queue_handler_available_pop_amount(H) == 0, "left", "messages are pending after everything was handled");
	destroy();
	HX_CHECK(nhandled == acc, "count", "%d accepted, %d handled", acc, nhandled);
}
static void b_clear(void* a)
{ /* clear: nothing pushed before is started afterwards; everything pushed later is handled */
	(void)a;
	H = make(8, true);
	HX_CHECK(H != NULL, "create", "creation failed");
	int before = 1 + hx_choose(HX_T(2, 3), "messages before clear");
	for (int i = 0; i < before; i++) push(i);
	fixed_msg_queue_handler_clear(H);
	cleared = 1;
	cx_event("cleared", nhandled, 0);
	/* the message being handed over when clear returned may still be handled */
	int at = nhandled + 1;
	int later = hx_choose(3, "messages after clear");
	for (int i = 0; i < later; i++) HX_CHECK(push(before + i) == MSG_Q_CODE_SUCCESS, "push-after-clear", "a push after clear is refused");
	if (later) cx_until(p_last, (void*)(long)(before + later - 1), "main waits for the last message pushed after clear");
	destroy();
	int old = 0, k = 0;
	for (int i = 0; i < nhandled; i++)
		if (handled[i] < before) { HX_CHECK(handled[i] == i, "order", "message %d is handled as number %d", handled[i], i); old++; }
		else { HX_CHECK(handled[i] == before + k, "order", "after the clear message %d is handled instead of %d", handled[i], before + k); k++; }
	HX_CHECK(old <= at, "cleared-delivered", "%d message(s) pushed before the clear were handled although at most %d were handled or under way when it returned", old, at);
	HX_CHECK(k == later, "lost-after-clear", "%d message(s) were pushed after the clear, %d handled", later, k);
}
static void b_stop(void* a)
{
	(void)a;
	H = make(4, true);
	int n = hx_choose(4, "messages");
	for (int i = 0; i < n; i++) push(i);
	if (hx_choose(2, "wait for ready")) cx_until(p_ready, NULL, "main waits for 'ready'");
	destroy();
	prefix();
	HX_CHECK(ready == 1 && stopping == 1, "status-count", "'ready' was reported %d time(s), 'about to stop' %d time(s) when destroy returned", ready, stopping);
}
static void b_break(void* a)
{
	(void)a;
	stop_at = 1 + hx_choose(2, "message that asks to stop");
	H = make(8, true);
	push(0), push(1), push(2);
	cx_until(p_stopping, NULL, "main waits for 'about to stop'");
	HX_CHECK(nhandled == stop_at, "stop-ignored", "%d messages handled, the handler asked to stop after %d", nhandled, stop_at);
	msg_q_code_e c = push(3);
	HX_CHECK(c == MSG_Q_CODE_NULL_HANDLE, "push-after-stop", "push on a stopped handler returns %d", c);
	destroy();
	prefix();
	HX_CHECK(nhandled == stop_at && stopping == 1, "stop-ignored", "handled %d after the stop", nhandled);
}
static void b_fault(void* a)
{
	(void)a;
	int w = hx_choose(5, "what fails");
	if (w < 4) cx_fail_alloc(w + 1, false); else cx_fail_create(1);
	H = make(4, true);
	int f = cx_alloc_fired() + cx_create_fired();
	HX_CHECK(!H == !!f, "create-fault", "%d failure(s) during creation, the handler is %s", f, H ? "created" : "missing");
	cx_fail_alloc(0, false);
	if (!H) { HX_CHECK(!ready && !stopping && !nhandled, "thread-left", "callbacks without a handler"); return; }
	push(0);
	cx_until(p_all, NULL, "main waits until every accepted message is handled");
	destroy();
	prefix();
}
static int cb0(fixed_msg_t* m, void* u) { (void)m; (void)u; return 0; }
static void b_args(void* a)
{
	(void)a;
	fixed_msg_queue_handler_init_param_t ip = { 0 };
	HX_CHECK(!fixed_msg_queue_handler_create(8, NULL) && !fixed_msg_queue_handler_create(8, &ip), "bad-arguments", "a handler without a callback is created");
	ip.fn_handle_msg = cb0;
	HX_CHECK(!fixed_msg_queue_handler_create(0, &ip), "bad-arguments", "a handler without room for a message is created");
	HX_CHECK(fixed_msg_queue_handler_push(NULL, &X[0]) == MSG_Q_CODE_NULL_HANDLE, "bad-arguments", "push without a handler");
	fixed_msg_queue_handler h = NULL;
	fixed_msg_queue_handler_destroy(&h);
	fixed_msg_queue_handler_destroy(NULL);
}
/* very many messages, with clears in between */
static int hi_last;
static int last_id(void) { return hi_last; }
static void set_last(int v) { hi_last = v; }
static bool p_quiet(void* a) { (void)a; return cx_blocked(1); }
static int hi, got_n, lowest, block, blocked;
static bool p_open(void* a) { (void)a; return !block; }
static bool p_blocked(void* a) { (void)a; return blocked; }
static bool p_hi(void* a) { (void)a; return got_n && last_id() == hi; }
static int on_many(fixed_msg_t* m, void* u)
{
	HX_CHECK(u == (void*)0x78, "user-data", "a message callback gets user data %p", u);
	HX_CHECK(m->what > last_id() && m->what <= hi && m->arg1 == m->what * 3 && m->obj.data_len == 8 && !memcmp(m->obj.data, &m->what, 4), "message-damaged", "message %d arrives after message %d, %d were pushed", m->what, last_id(), hi);
	HX_CHECK(m->what >= lowest, "cleared-delivered", "message %d is handled, all before %d were cleared", m->what, lowest);
	HX_CHECK(m->what == last_id() + 1 || m->what == lowest, "lost", "message %d is handled after message %d", m->what, last_id());
	set_last(m->what);
	got_n++;
	if (block) { blocked = 1; cx_until(p_open, NULL, "the callback waits"); blocked = 0; }
	if (got_n % 64 == 0) cx_event("message", m->what, 0);
	return 0;
}
static msg_q_code_e push_many(void)
{
	static fixed_msg_t m;
	m.what = hi + 1, m.arg1 = m.what * 3, m.obj.data_len = 8;
	memcpy(m.obj.data, &m.what, 4);
	hi++;
	msg_q_code_e c = fixed_msg_queue_handler_push(H, &m);
	if (c != MSG_Q_CODE_SUCCESS) hi--;
	return c;
}
static void b_scale(void* a)
{
	(void)a;
	cx_opt.no_prune = cx_opt.one_schedule = true, cx_opt.horizon = 100000000;
	fixed_msg_queue_handler_init_param_t ip = { 0 };
	ip.user_data = (void*)0x78, ip.fn_handle_msg = on_many;
	H = fixed_msg_queue_handler_create((uint32_t[]){ 2, 3, 300, 1000 }[hx_choose(4, "capacity")], &ip);
	HX_CHECK(H != NULL, "create", "creation failed");
	hi = -1, got_n = 0, lowest = 0, block = blocked = 0;
	set_last(-1);
	int n = HX_T(70000, 140000), every = (int[]){ 100000000, 1000, 253 }[hx_choose(3, "clear every")];
	for (int i = 0; i < n; i++)
	{
		if (i % every == every - 1)
		{	/* what is pending is cleared; the callback is held up meanwhile */
			cx_until(p_hi, NULL, "main waits until everything is handled");
			block = 1;
			HX_CHECK(push_many() == MSG_Q_CODE_SUCCESS, "push", "an empty queue refuses message %d", hi + 1);
			cx_until(p_blocked, NULL, "main waits until the callback is held up");
			int k = 0;
			while (push_many() == MSG_Q_CODE_SUCCESS && k < 3) k++;
			fixed_msg_queue_handler_clear(H);
			int b = lowest = hi + 1;
			block = 0;
			if (i % 2)
			{	/* nothing of what was cleared may come, also when nothing follows for a while */
				cx_until(p_quiet, NULL, "main waits until the handler is idle");
				HX_CHECK(last_id() < b, "cleared-delivered", "message %d was cleared", last_id());
			}
			cx_until(p_quiet, NULL, "main waits until the handler is idle");
			HX_CHECK(push_many() == MSG_Q_CODE_SUCCESS, "push", "an empty queue refuses message %d", hi + 1);
			cx_until(p_hi, NULL, "main waits for the message pushed after the clear");
			lowest = 0;
		}
		else if (push_many() != MSG_Q_CODE_SUCCESS)
		{
			cx_until(p_hi, NULL, "main waits until everything is handled");
			HX_CHECK(push_many() == MSG_Q_CODE_SUCCESS, "push", "an empty queue refuses message %d", hi + 1);
		}
	}
	cx_until(p_hi, NULL, "main waits until everything is handled");
	hx_outcome(hx_mix((uint64_t)got_n, (uint64_t)every));
	fixed_msg_queue_handler_destroy(&H);
}
static void b_full(void* a)
{	/* the callback is held up: exactly the capacity fits */
	(void)a;
	uint32_t cap = (uint32_t[]){ 2, 3, 4, 7, 300 }[hx_choose(5, "capacity")];
	cx_opt.horizon = 1000000;
	fixed_msg_queue_handler_init_param_t ip = { 0 };
	ip.user_data = (void*)0x78, ip.fn_handle_msg = on_many;
	H = fixed_msg_queue_handler_create(cap, &ip);
	HX_CHECK(H != NULL, "create", "creating a handler for %u messages failed", cap);
	hi = -1, got_n = 0, lowest = 0, block = 1, blocked = 0;
	set_last(-1);
	uint32_t cap0 = fixed_msg_queue_handler_available_push_amount(H);
	HX_CHECK(cap0 == cap, "capacity", "a handler created for at most %u messages has room for %u", cap, cap0);
	for (int round = 0; round < 2; round++)
	{
		HX_CHECK(push_many() == MSG_Q_CODE_SUCCESS, "push", "an empty queue refuses a message");
		cx_until(p_blocked, NULL, "main waits until the callback is held up");
		uint32_t k = 0;
		HX_CHECK(fixed_msg_queue_handler_is_empty(H), "is-empty", "nothing is pending, is_empty is false");
		for (; k < cap0; k++)
		{
			HX_CHECK(!fixed_msg_queue_handler_is_full(H) && fixed_msg_queue_handler_available_push_amount(H) == cap0 - k && fixed_msg_queue_handler_available_pop_amount(H) == k, "amount", "%u messages are pending, room for %u of %u", k, fixed_msg_queue_handler_available_push_amount(H), cap0);
			HX_CHECK(push_many() == MSG_Q_CODE_SUCCESS, "push", "message %u of %u is refused", k, cap0);
			HX_CHECK(!fixed_msg_queue_handler_is_empty(H), "is-empty", "%u messages are pending, is_empty is true", k + 1);
		}
		HX_CHECK(fixed_msg_queue_handler_is_full(H) && fixed_msg_queue_handler_available_push_amount(H) == 0, "is-full", "is_full is false with no room left");
		HX_CHECK(push_many() == MSG_Q_CODE_FULL, "push-full", "a full queue takes a message");
		block = 0;
		cx_until(p_hi, NULL, "main waits until everything is handled");
		cx_until(p_quiet, NULL, "main waits until the handler is idle");
		HX_CHECK(fixed_msg_queue_handler_is_empty(H) && !fixed_msg_queue_handler_is_full(H) && fixed_msg_queue_handler_available_push_amount(H) == cap0, "is-empty", "everything was handled");
		block = 1;
	}
	block = 0;
	hx_outcome(hx_mix((uint64_t)got_n, (uint64_t)cap));
	fixed_msg_queue_handler_destroy(&H);
}
/* every history of push, clear and "the callback returns", one step at a time */
static int st_cur, st_seen[32], st_n, st_gate;
static bool p_gate(void* a) { (void)a; return st_gate; }
static int on_step(fixed_msg_t* m, void* u)
{
	HX_CHECK(u == (void*)0x78 && st_cur < 0, "callback-overlap", "message %d is handled while message %d is", m->what, st_cur);
	HX_CHECK(m->arg1 == m->what * 3 && m->arg2 == ~m->what && m->obj.data_len == 4 && !memcmp(m->obj.data, &m->what, 4), "message-damaged", "message %d arrives damaged", m->what);
	HX_CHECK(st_n < 32, "too-many", "more messages are handled than were pushed");
	st_cur = st_seen[st_n++] = m->what;
	cx_until(p_gate, NULL, "the callback waits");
	if (st_gate == 1) st_gate = 0;
	st_cur = -1;
	return 0;
}
static void b_history(void* a)
{
	(void)a;
	cx_opt.no_prune = cx_opt.one_schedule = true;
	fixed_msg_queue_handler_init_param_t ip = { 0 };
	ip.user_data = (void*)0x78, ip.fn_handle_msg = on_step;
	H = fixed_msg_queue_handler_create((uint32_t[]){ 2, 3 }[hx_choose(2, "capacity")], &ip);
	HX_CHECK(H != NULL, "create", "creation failed");
	int cap = (int)fixed_msg_queue_handler_available_push_amount(H), next = 0, valid[32], nv = 0, old = 0, held = -1, seen = 0;
	st_cur = -1, st_n = st_gate = 0;
	cx_until(p_quiet, NULL, "main waits until the handler is idle");
	for (int d = HX_T(8, 10); d > 0; d--)
	{
		int op = hx_choose(held >= 0 ? 3 : 2, "operation");
		if (op == 0)
		{
			fixed_msg_t m = { 0 };
			m.what = next, m.arg1 = next * 3, m.arg2 = ~next, m.obj.data_len = 4;
			memcpy(m.obj.data, &next, 4);
			msg_q_code_e c = fixed_msg_queue_handler_push(H, &m);
			HX_CHECK(c == MSG_Q_CODE_SUCCESS || c == MSG_Q_CODE_FULL, "push-code", "push returns %d", c);
			if (c == MSG_Q_CODE_SUCCESS) valid[nv++] = next;
			else HX_CHECK(nv + old >= cap, "full-wrong", "a push is refused with %d message(s) pending in a queue for %d", nv + old, cap);
			HX_CHECK(nv - (held < 0) <= cap, "overfull", "%d messages are pending in a queue for %d", nv, cap);
			next++;
		}
		else if (op == 1) { fixed_msg_queue_handler_clear(H); old += nv; nv = 0; }
		else { st_gate = 1; held = -1; }
		cx_until(p_quiet, NULL, "main waits until the handler is idle or held up");
		if (held < 0)
		{
			old = 0; /* all that was cleared is gone, the next message is started */
			if (nv) { held = valid[0]; memmove(valid, valid + 1, sizeof(int) * (size_t)--nv); seen++; }
		}
		HX_CHECK(st_n == seen, st_n > seen ? "cleared-delivered" : "lost", "after operation %d message %d is handled, %d expected", op, st_cur, held);
		HX_CHECK(st_cur == held, "order", "after operation %d message %d is handled, %d expected", op, st_cur, held);
		int pop = (int)fixed_msg_queue_handler_available_pop_amount(H), room = (int)fixed_msg_queue_handler_available_push_amount(H);
		HX_CHECK(pop >= nv && pop <= nv + old && pop + room == cap, "amount", "%d pending and %d cleared: %d to pop and room for %d of %d are reported", nv, old, pop, room, cap);
		hx_outcome(hx_mix((uint64_t)(held * 1000 + nv * 100 + old), (uint64_t)pop));
	}
	st_gate = 2; /* the callback returns from now on */
	fixed_msg_queue_handler_destroy(&H);
	HX_CHECK(st_cur < 0, "destroy-early", "destroy returned while message %d was being handled", st_cur);
}
static void s8(void) { run(b_history); }
static void s6(void) { run(b_full); }
static void s7(void) { run(b_scale); }
static void s0(void) { run(b_deliver); }
static void s1(void) { run(b_clear); }
static void s2(void) { run(b_stop); }
static void s3(void) { run(b_break); }
static void s4(void) { run(b_fault); }
static void s5(void) { run(b_args); }
const hx_scn_t hx_scenarios[] = {
	{ "deliver", s0, 3, 5, "4-6 messages, a queue that fills up; the sender then waits until all accepted ones were handled" },
	{ "clear", s1, 4, 6, "messages before and after a clear at every possible moment" },
	{ "destroy-any-time", s2, 4, 6, "0-3 messages pushed, destroyed at every possible moment" },
	{ "callback-stops", s3, 3, 5, "a message callback returns non-zero" },
	{ "faults", s4, 3, 4, "every allocation and the thread creation fail in turn" },
	{ "arguments", s5, 0, 1, "missing arguments" },
	{ "full", s6, 1, 2, "capacities 2..300 filled to the last message while a callback is held up" },
	{ "scale", s7, 0, 0, "70000 (140000) messages through queues of four capacities, with clears at three rates" },
	{ "history", s8, 0, 0, "every history of 8 (10) pushes, clears and returns of the callback, compared with a model after every step" },
};
const int hx_n_scenarios = 9;
