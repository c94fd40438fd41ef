/* R04, two threads: with lock callbacks a reader gets exactly the bytes of the
 * position it asked for, or is told that they are covered / not there yet. */
#include "cx.h"
#include "ring/autocover_buffer.h"
#include "log/slog.h"
#include <pthread.h>

static pthread_mutex_t mu;
static auto_cover_buf_handle h;
static int nw, wsz[3], nr;
static uint32_t rpos[3], rlen[3];
static int acq(void* a) { return pthread_mutex_lock(a); }
static int rel(void* a) { return pthread_mutex_unlock(a); }
static void* writer(void* a)
{
	(void)a;
	uint8_t b[16];
	int pos = 1;
	for (int i = 0; i < nw; i++)
	{
		for (int k = 0; k < wsz[i]; k++) b[k] = (uint8_t)(pos + k);
		int r = auto_cover_buf_write(h, b, (uint32_t)wsz[i]);
		HX_CHECK(r == wsz[i], "write-count", "a write of %d bytes reports %d", wsz[i], r);
		pos += wsz[i];
	}
	return NULL;
}
static void* reader(void* a)
{
	(void)a;
	uint8_t b[16];
	for (int i = 0; i < nr; i++)
	{
		memset(b, 0, sizeof b);
		int av = auto_cover_buf_available_read(h, rpos[i]);
		HX_CHECK(av >= -3 && av <= 8, "available", "available_read reports %d for a buffer of 8", av);
		int r = auto_cover_buf_read(h, rpos[i], b, rlen[i]);
		cx_event("read", (long)rpos[i], r);
		if (r < 0) { HX_CHECK(r == AUTO_COVER_BUF_ERR_DATA_COVERED || r == AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, "read-code", "read returns %d", r); continue; }
		HX_CHECK(r == (int)rlen[i], "read-count", "read(%u) reports %d", rlen[i], r);
		HX_CHECK(((uint32_t)(b[0] - 1) & 7) == (rpos[i] & 7), "read-data", "read at position %u returned the byte of position %d", rpos[i], b[0] - 1);
		for (int k = 1; k < r; k++) HX_CHECK(b[k] == (uint8_t)(b[0] + k), "read-torn", "read returned a mixture of old and new bytes");
	}
	return NULL;
}
static void body(void* a)
{
	(void)a;
	slog_set_min_level(LOG_LEVEL_OFF);
	pthread_mutex_init(&mu, NULL);
	auto_cover_buf_lock_t l = { &mu, acq, rel };
	h = auto_cover_buf_create(8, &l);
	HX_CHECK(h, "create", "creation failed");
	pthread_t t[2];
	pthread_create(&t[0], NULL, writer, NULL);
	pthread_create(&t[1], NULL, reader, NULL);
	pthread_join(t[0], NULL);
	pthread_join(t[1], NULL);
	auto_cover_buf_destroy(&h);
	pthread_mutex_destroy(&mu);
	HX_CHECK(cx_sync_left() == 0, "sync-left", "synchronisation objects left");
	cx_check_leaks("leak");
}
static void two_threads(void)
{
	static const int ws[] = { 1, 5, 8 };
	nw = HX_T(2, 3), nr = 2;
	for (int i = 0; i < nw; i++) wsz[i] = ws[hx_choose(3, "write size")];
	for (int i = 0; i < nr; i++) { rpos[i] = (uint32_t)hx_choose(3, "position") * 5; rlen[i] = hx_choose(2, "length") ? 3 : 8; }
	cx_run(body, NULL);
}
const hx_scn_t hx_scenarios[] = { { "two-threads", two_threads, 2, 3, "a writer and a reader sharing the buffer through the lock callbacks; write sizes, read positions and lengths x all schedules" } };
const int hx_n_scenarios = 1;
