/* L01: the file logger.  Every accepted message reaches the piece files exactly
 * once, whole and in order; what a try-my-best logger could not accept is in the
 * lost file; pieces are cut exactly when they reached their size. */
#include "cx.h"
#include "scale.h"
#include "vfs.h"
#include "log/file_logger.h"
#include "log/slog.h"
#include <pthread.h>
#include <errno.h>

#define MM 12
static char text[MM][6000];
static size_t len[MM], nul[MM];
static int acc[MM], nacc, lost[MM], nlost, inside;
static file_logger_cfg cfg;
static pthread_mutex_t mx;
static char order[64][600];          /* the piece files, in the order they appeared */
static int norder;

static int acquire(void* a)
{
	HX_CHECK(a == (void*)&mx, "lock-arg", "the lock function gets a wrong argument");
	pthread_mutex_lock(&mx);
	HX_CHECK(inside++ == 0, "lock", "the lock is taken twice");
	return 0;
}
static int release(void* a)
{
	HX_CHECK(a == (void*)&mx && inside == 1, "lock", "the lock is released without being held");
	inside = 0;
	pthread_mutex_unlock(&mx);
	return 0;
}
static void setup(const char* folder, const char* prefix, size_t piece, size_t kib, bool best, bool lock)
{
	memset(&cfg, 0, sizeof cfg);
	strcpy(cfg.log_folder_path, folder), strcpy(cfg.log_file_name_prefix, prefix);
	cfg.one_piece_file_max_len = piece, cfg.log_queue_size = kib, cfg.is_try_my_best_to_keep_log = best;
	if (lock) cfg.lock.arg = &mx, cfg.lock.acquire = acquire, cfg.lock.release = release;
}
static void message(int id, size_t n, bool z)
{
	for (size_t i = 0; i < n; i++) text[id][i] = (char)('a' + (id * 5 + i) % 26);
	if (n) text[id][0] = (char)('A' + id);
	if (n > 3) text[id][2] = '%', text[id][n - 1] = (char)('0' + id % 10);
	text[id][n] = 0, len[id] = n, nul[id] = z;
}
static int put(file_logger_handle h, int id)
{
	char* b = malloc(len[id] + 1); /* the caller's buffer is its own again afterwards */
	memcpy(b, text[id], len[id] + 1);
	acc[nacc++] = id; /* it may be written before the call returns */
	int r = file_logger_log(h, b, len[id] + nul[id]);
	memset(b, '#', len[id] + 1);
	free(b);
	cx_event("logged", id, r);
	if (r)
	{
		int at = 0;
		while (acc[at] != id) at++;
		for (nacc--; at < nacc; at++) acc[at] = acc[at + 1];
		lost[nlost++] = id;
	}
	return r;
}
static const char* base(const char* p) { const char* s = strrchr(p, '/'); return s ? s + 1 : p; }
void vfs_hook(int kind, const char* path)
{
	cx_point("file system");
	if (kind == VFS_WRITE && *path && !strstr(path, "lost"))
	{
		for (int i = 0; i < norder; i++) if (!strcmp(order[i], path)) return;
		if (norder < 64) snprintf(order[norder++], 600, "%s", path);
	}
}
static bool p_idle(void* a) { (void)a; return cx_blocked(1); }

/* all pieces together, in the order they were begun; upto: how many messages at least */
static void judge(int least, size_t piece, bool onesize)
{
	static char all[MM * 6000 + 64];
	size_t n = 0, at = 0;
	int m = 0;
	for (int i = 0; i < norder; i++)
	{
		size_t k;
		const char* d = vfs_get(order[i], &k);
		HX_CHECK(d, "piece-vanished", "the piece file %s is gone", order[i]);
		size_t pl = strlen(cfg.log_file_name_prefix);
		HX_CHECK(!strncmp(base(order[i]), cfg.log_file_name_prefix, pl) && strlen(order[i]) > 4 && !strcmp(order[i] + strlen(order[i]) - 4, ".log"), "piece-name", "a piece is called %s", order[i]);
		HX_CHECK(n + k < sizeof all, "too-much", "the piece files hold more than was logged");
		memcpy(all + n, d, k);
		n += k;
	}
	while (m < nacc)
	{
		int id = acc[m];
		if (n - at < len[id] + 1) break;
		HX_CHECK(!memcmp(all + at, text[id], len[id]), "message-damaged", "accepted message %d (number %d) is not in the files at its place", id, m);
		HX_CHECK(all[at + len[id]] == '\n', "no-newline", "message %d is not followed by a newline", id);
		at += len[id] + 1, m++;
	}
	HX_CHECK(at == n, "extra", "the files hold %zu bytes, of which %zu are the first %d accepted messages", n, at, m);
	HX_CHECK(m >= least, "message-missing", "%d messages are in the files, %d should be", m, least);
	if (onesize)
	{ /* where the cuts are */
		m = 0;
		for (int i = 0; i < norder; i++)
		{
			size_t k, s = 0;
			vfs_get(order[i], &k);
			while (s < k)
			{
				HX_CHECK(!piece || s < piece, "piece-too-long", "a piece goes on with %zu bytes although it had reached %zu", s, piece);
				s += len[acc[m++]] + 1;
			}
			HX_CHECK(s == k, "message-split", "a message is split over two pieces");
			if (i + 1 < norder) HX_CHECK(piece && s >= piece, "piece-too-short", "a piece is closed with %zu bytes, the limit is %zu", s, piece);
		}
	}
	int seen = 0;
	for (int i = 0; i < vfs_count(); i++)
	{
		int dir;
		const char* p = vfs_name(i, &dir);
		if (dir || !strstr(p, "lost")) continue;
		seen++;
		size_t k, o = 0;
		const char* d = vfs_get(p, &k);
		HX_CHECK(cfg.is_try_my_best_to_keep_log && nlost, "lost-file", "there is a file %s although nothing was lost", p);
		char want[64];
		snprintf(want, sizeof want, "%s_lost.log", cfg.log_file_name_prefix);
		HX_CHECK(!strcmp(base(p), want), "lost-name", "the lost file is called %s", p);
		for (int j = 0; j < nlost; j++)
		{
			int id = lost[j];
			HX_CHECK(k - o > len[id] && !memcmp(d + o, text[id], len[id]) && d[o + len[id]] == '\n', "lost-damaged", "refused message %d is not in the lost file at its place", id);
			o += len[id];
			while (o < k && d[o] == '\n') o++;
		}
		HX_CHECK(o == k, "lost-extra", "the lost file has %zu bytes more than the refused messages", k - o);
	}
	HX_CHECK(seen == (cfg.is_try_my_best_to_keep_log && nlost ? 1 : 0), "lost-missing", "%d message(s) were refused and there are %d lost file(s)", nlost, seen);
	hx_outcome(hx_mix(hx_hash((uint64_t)norder, all, n), (uint64_t)nlost));
	hx_state(hx_mix(hx_hash((uint64_t)norder, all, n), (uint64_t)nlost));
}
static file_logger_handle open_logger(void)
{
	file_logger_handle h = file_logger_init(&cfg);
	file_logger_cfg c = cfg;
	memset(&cfg, 0x5A, sizeof cfg); /* the configuration is only borrowed */
	cfg = c;
	return h;
}
static void close_logger(file_logger_handle h)
{
	HX_CHECK(file_logger_deinit(&h) == 0 && h == NULL, "deinit", "deinit fails or leaves the handle");
	cx_event("deinit", 0, 0);
	HX_CHECK(vfs_open_files() == 0, "file-left", "%d file(s) are still open after deinit", vfs_open_files());
	HX_CHECK(!inside, "lock", "the lock is held after deinit");
}
static void run(void (*b)(void*))
{
	slog_set_min_level(LOG_LEVEL_OFF);
	vfs_reset();
	nacc = nlost = inside = norder = 0;
	cx_run(b, NULL);
	cx_check_leaks("leak");
	HX_CHECK(cx_sync_left() == 0, "sync-left", "%d synchronisation object(s) are left behind", cx_sync_left());
}
static void b_pieces(void* a)
{ /* every sequence of message lengths, piece limits around them; time passes between the messages */
	(void)a;
	static const size_t P[] = { 0, 64, 70, 128, 30 };
	static const size_t L[] = { 1, 20, 63, 64, 130 };
	size_t piece = P[hx_choose(5, "piece size")];
	bool z = hx_choose(2, "the size counts the NUL");
	setup(hx_choose(2, "folder") ? "a/b" : "logs/", "p_", piece, 4, hx_choose(2, "best"), false);
	if (piece < 64) piece = 0;
	cx_opt.time_step_us = 2500;
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	int n = HX_T(3, 4);
	bool wait = hx_choose(2, "wait after each");
	for (int i = 0; i < n; i++)
	{
		message(i, L[hx_choose(5, "length")], z);
		HX_CHECK(put(h, i) == 0, "refused", "a message that fits is refused");
		if (wait) cx_until(p_idle, NULL, "main waits until the worker is idle");
	}
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	judge(n, piece, true);
}
static void b_samems(void* a)
{ /* no time passes: several pieces are begun within one millisecond */
	(void)a;
	setup("logs", "x", hx_choose(2, "piece") ? 64 : 100, 4, true, false);
	cx_opt.time_step_us = hx_choose(2, "clock") ? 300 : 0;
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	for (int i = 0; i < 4; i++)
	{
		message(i, hx_choose(2, "length") ? 80 : 40, false);
		HX_CHECK(put(h, i) == 0, "refused", "a message that fits is refused");
	}
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	judge(4, 0, false);
}
static void b_full(void* a)
{ /* a queue of 2 KiB: messages may be refused */
	(void)a;
	bool best = hx_choose(2, "best");
	setup("lg", "q", 0, 2, best, hx_choose(2, "lock"));
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	pthread_mutex_init(&mx, NULL);
	static const size_t L[] = { 700, 1500, 2047, 3000 };
	int n = 4;
	for (int i = 0; i < n; i++)
	{
		message(i, L[hx_choose(4, "length")], true);
		put(h, i);
		if (i == 1 && hx_choose(2, "pause")) cx_until(p_idle, NULL, "main waits until the worker is idle");
	}
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	int k = nacc;
	message(n, 100, false);
	HX_CHECK(put(h, n) == 0, "refused", "an idle logger refuses a small message");
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	pthread_mutex_destroy(&mx);
	judge(k + 1, 0, true);
}
static void b_big(void* a)
{ /* messages longer than the caller-side cache */
	(void)a;
	setup("lg", "q", 2050, 64, true, false);
	cx_opt.time_step_us = 2500;
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	static const size_t L[] = { 2047, 2048, 2049, 4096, 4103, 5000, 3 };
	for (int i = 0; i < 3; i++)
	{
		message(i, L[hx_choose(7, "length")], hx_choose(2, "nul"));
		HX_CHECK(put(h, i) == 0, "refused", "a message that fits is refused");
	}
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	judge(3, 2050, true);
}
static void* t_other(void* h)
{
	for (int i = 0; i < 2; i++) put(h, 4 + i);
	return NULL;
}
static void b_two(void* a)
{ /* two logging threads with the logger's lock */
	(void)a;
	pthread_t t;
	setup("lg", "q", hx_choose(2, "piece") ? 64 : 0, 2, true, true);
	cx_opt.time_step_us = 2500;
	pthread_mutex_init(&mx, NULL);
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	bool tight = hx_choose(2, "long");
	for (int i = 0; i < 8; i++) message(i, tight ? 900 : 50 + (size_t)i, true);
	pthread_create(&t, NULL, t_other, h);
	/* acc[] is filled in call order, the files in lock order: compare as an interleaving */
	put(h, 0), put(h, 1);
	pthread_join(t, NULL);
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	pthread_mutex_destroy(&mx);
	/* each accepted message once; each thread's own order kept; refused ones in the lost file */
	static char all[MM * 6000];
	size_t n = 0, at = 0;
	for (int i = 0; i < norder; i++)
	{
		size_t k;
		const char* d = vfs_get(order[i], &k);
		memcpy(all + n, d, k);
		n += k;
	}
	int next[2] = { 0, 0 }, seen[8] = { 0 };
	while (at < n)
	{
		int id = all[at] - 'A';
		HX_CHECK(id >= 0 && id < 8, "message-damaged", "no message begins at byte %zu of the files", at);
		HX_CHECK(n - at > len[id] && !memcmp(all + at, text[id], len[id]) && all[at + len[id]] == '\n', "message-damaged", "message %d is damaged in the files", id);
		int th = id >= 4;
		HX_CHECK((id & 3) >= next[th] && !seen[id], "order", "message %d is out of its thread's order or doubled", id);
		next[th] = (id & 3) + 1, seen[id] = 1;
		at += len[id] + 1;
	}
	for (int i = 0; i < nacc; i++) HX_CHECK(seen[acc[i]], "message-missing", "accepted message %d is not in the files", acc[i]);
	int s = 0;
	for (int i = 0; i < 8; i++) s += seen[i];
	HX_CHECK(s == nacc, "refused-written", "%d messages are in the files, %d were accepted", s, nacc);
	size_t k = 0;
	const char* d = vfs_get("lg/q_lost.log", &k);
	for (int i = 0; i < nlost; i++) HX_CHECK(d && k && memmem(d, k, text[lost[i]], len[lost[i]]), "lost-missing", "refused message %d is not in the lost file", lost[i]);
	hx_outcome(hx_hash((uint64_t)nlost, all, n));
	hx_state(hx_hash((uint64_t)nlost, all, n));
}
static void b_deinit(void* a)
{ /* deinit at any moment: what is in the files is a prefix of what was accepted */
	(void)a;
	setup("l/m", "q", hx_choose(2, "piece") ? 64 : 0, 2, false, false);
	cx_opt.time_step_us = 2500;
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	int n = hx_choose(4, "messages");
	for (int i = 0; i < n; i++) { message(i, 40, false); put(h, i); }
	close_logger(h);
	judge(0, cfg.one_piece_file_max_len, true);
}
static void b_init(void* a)
{ /* bad configurations, and every failing resource while starting */
	(void)a;
	file_logger_handle h = NULL;
	int bad = hx_choose(8, "configuration");
	setup("lg", "q", 0, 2, false, false);
	HX_CHECK(file_logger_deinit(NULL) != 0 && file_logger_deinit(&h) != 0, "deinit-null", "deinit of nothing succeeds");
	if (bad == 0) { HX_CHECK(file_logger_init(NULL) == NULL, "init-null", "init without a configuration succeeds"); return; }
	if (bad == 1) { cfg.log_folder_path[0] = 0; HX_CHECK(file_logger_init(&cfg) == NULL, "init-folder", "init without a folder succeeds"); return; }
	if (bad == 2) { cfg.log_queue_size = (size_t)hx_choose(2, "kib"); HX_CHECK(file_logger_init(&cfg) == NULL, "init-queue", "init with a queue of %zu KiB succeeds", cfg.log_queue_size); return; }
	strcpy(cfg.log_folder_path, "ab\\c");
	if (bad == 3) { memset(cfg.log_folder_path, 'd', 126); memset(cfg.log_file_name_prefix, 'e', 31); }
	if (bad == 4) memset(cfg.log_folder_path, 'd', 127);
	int k = 0;
	if (bad == 5) cx_fail_alloc(k = 1 + hx_choose(7, "which allocation"), false);
	if (bad == 6) cx_fail_create(k = 1);
	if (bad == 7) cx_fail_init(k = 1 + hx_choose(3, "which lock"));
	h = open_logger();
	if (h == NULL)
	{
		HX_CHECK(k && (cx_alloc_fired() || cx_create_fired() || cx_init_fired()), "init", "init fails without a reason");
		return;
	}
	if (bad == 6) hx_fail("init-no-thread", "init succeeds although no thread could be created");
	message(0, 30, true);
	int r = put(h, 0);
	if (!k)
	{
		HX_CHECK(r == 0, "refused", "the first message is refused");
		cx_until(p_idle, NULL, "main waits until the worker is idle");
	}
	else cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	if (!k)
	{
		const char* folder = bad == 3 ? NULL : "ab/c/";
		HX_CHECK(norder == 1 && (bad >= 3 && bad <= 4 ? 1 : !strncmp(order[0], folder, strlen(folder)) || !strncmp(order[0], "./ab/c/", 7)), "folder", "the piece is %s", order[0]);
		if (bad == 3)
		{
			HX_CHECK(strlen(order[0]) > 126 + 1 + 31, "folder", "the piece is %s", order[0]);
			for (int i = 0; i < 126; i++) HX_CHECK(order[0][i] == 'd', "folder", "the piece is %s", order[0]);
		}
		judge(1, 0, false);
	}
}
static void b_oom(void* a)
{ /* an allocation fails while logging: the message is refused and (try my best) kept in the lost file */
	(void)a;
	setup("lg", "q", 0, 64, true, false);
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	message(0, 3000, true), message(1, 20, true), message(2, 3000, true);
	cx_fail_alloc(2, false); /* the first one is the harness's own copy */
	HX_CHECK(put(h, 0) != 0 || !cx_alloc_fired(), "oom-accepted", "a message is accepted although there is no memory for it");
	cx_fail_alloc(0, false);
	HX_CHECK(put(h, 1) == 0 && put(h, 2) == 0, "oom-after", "the logger refuses messages after a failed allocation");
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	judge(nacc, 0, true);
}
static void b_iofail(void* a)
{ /* opening a piece fails now and then: other messages are still written, once each and in order */
	(void)a;
	setup("lg", "q", 64, 4, true, false);
	cx_opt.time_step_us = 2500;
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	int kind = hx_choose(3, "kind"), k = 1 + hx_choose(3, "which access");
	vfs_fail(1u << (kind == 0 ? VFS_OPEN : kind == 1 ? VFS_MKDIR : VFS_WRITE), k, VFS_ERROR, hx_choose(2, "sticky"));
	for (int i = 0; i < 4; i++) { message(i, 70, false); put(h, i); cx_until(p_idle, NULL, "main waits until the worker is idle"); }
	bool fired = vfs_fired();
	vfs_fail(0, 0, 0, 0);
	message(4, 70, false), put(h, 4);
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	char last = 0;
	int n = 0;
	for (int i = 0; i < norder; i++)
	{
		size_t m;
		const char* d = vfs_get(order[i], &m);
		if (!d) continue;
		for (size_t at = 0; at < m; at += 71, n++)
		{
			int id = d[at] - 'A';
			HX_CHECK(d[at] > last && id >= 0 && id < 5 && m - at >= 71 && !memcmp(d + at, text[id], 70) && d[at + 70] == '\n', "message-damaged", "the files hold a damaged, doubled or misplaced message");
			last = d[at];
		}
	}
	HX_CHECK(last == 'E', "no-recovery", "a message logged after the failure was over is not in the files");
	HX_CHECK(fired || n == 5, "message-missing", "%d of 5 messages are in the files", n);
	hx_outcome(hx_mix((uint64_t)n, (uint64_t)fired));
	hx_state(hx_mix((uint64_t)n, (uint64_t)fired));
}
/* long messages, and thousands of messages in many pieces */
static size_t slen(int mode, int i, size_t big) { return mode ? 1 + ((size_t)i * 37 + (size_t)i / 9) % 300 : i & 1 ? 1 + (size_t)i % 5 : big; }
static char schar(int i, size_t k) { return (char)(33 + pat((uint64_t)i * 1009 + k) % 90); }
static void b_scale(void* a)
{
	(void)a;
	cx_opt.no_prune = cx_opt.one_schedule = true, cx_opt.horizon = 100000000;
	int mode = hx_choose(2, "mode"), n = mode ? 2500 : 6;
	size_t big = mode ? 0 : scale_n[hx_choose(NSCALE, "length")];
	size_t piece = mode ? (size_t[]){ 0, 30000, 65536, 100000 }[hx_choose(4, "piece")] : hx_choose(2, "piece") ? big + 5 : 0;
	setup("lg", "s", piece, mode ? 64 : 1024, true, false);
	cx_opt.time_step_us = 2500;
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	char* b = malloc(150000);
	for (int i = 0; i < n; i++)
	{
		size_t l = slen(mode, i, big);
		for (size_t k = 0; k < l; k++) b[k] = schar(i, k);
		b[l] = 0;
		HX_CHECK(file_logger_log(h, b, l + (i & 1)) == 0, "refused", "message %d of %zu bytes is refused", i, l);
		memset(b, '#', l);
		if (i % 50 == 49) cx_until(p_idle, NULL, "main waits until the worker is idle");
	}
	cx_until(p_idle, NULL, "main waits until the worker is idle");
	close_logger(h);
	free(b);
	int id = 0;
	size_t at = 0, total = 0;
	for (int p = 0; p < norder; p++)
	{
		size_t k, start = 0;
		const char* d = vfs_get(order[p], &k);
		HX_CHECK(d, "piece-vanished", "the piece file %s is gone", order[p]);
		for (size_t x = 0; x < k; x++)
		{
			HX_CHECK(id < n, "extra", "piece %d holds more than was logged", p);
			size_t l = slen(mode, id, big);
			if (d[x] != (at < l ? schar(id, at) : '\n')) hx_fail("message-damaged", "byte %zu of message %d (%zu bytes) is wrong in piece %d", at, id, l, p);
			if (at++ == l)
			{
				id++, at = 0;
				HX_CHECK(!piece || start < piece, "piece-too-long", "a piece goes on although it had reached %zu", piece);
				start = x + 1;
			}
		}
		HX_CHECK(at == 0, "message-split", "message %d is split over two pieces", id);
		if (p + 1 < norder) HX_CHECK(piece && k >= piece, "piece-too-short", "a piece is closed with %zu bytes, the limit is %zu", k, piece);
		total += k;
	}
	HX_CHECK(id == n, "message-missing", "%d of %d messages are in the files", id, n);
	hx_outcome(total * 8 + (uint64_t)norder), hx_state(total * 8 + (uint64_t)norder);
}
/* the name of a piece tells the local time at which it was begun */
static void b_zone(void* a)
{
	(void)a;
	cx_opt.no_prune = cx_opt.one_schedule = true;
	static const char* const TZS[] = { "UTC0", "AAA-8", "BBB5", "CCC-14", "DDD12", "EEE3EEF,M3.2.0,M11.1.0" };
	static const int64_t AT[] = { 1700000000, 1709251199, 1719878399, 1735689599, 1751328000, 1736380800 };
	int z = hx_choose(6, "zone");
	setenv("TZ", TZS[z], 1);
	tzset();
	cx_set_now_us(AT[hx_choose(6, "moment")] * 1000000 + (hx_choose(2, "end of the second") ? 999000 : 1000));
	setup("lg", "zz", 64, 4, true, false);
	cx_opt.time_step_us = hx_choose(2, "step") ? 1700 : 700000;
	int64_t t0 = cx_now_us();
	file_logger_handle h = open_logger();
	HX_CHECK(h, "init", "init fails");
	for (int i = 0; i < 4; i++)
	{
		message(i, 70, false);
		HX_CHECK(put(h, i) == 0, "refused", "a message that fits is refused");
		cx_until(p_idle, NULL, "main waits until the worker is idle");
		char dg[300];
		int n = 0;
		HX_CHECK(norder == i + 1, "piece-count", "%d pieces after %d messages that fill one each", norder, i + 1);
		for (const char* q = base(order[i]); *q; q++) if (*q >= '0' && *q <= '9') dg[n++] = *q;
		dg[n] = 0;
		bool ok = false;
		for (int64_t t = t0 / 1000000; t <= cx_now_us() / 1000000 && !ok; t++)
		{
			time_t tt = (time_t)t;
			struct tm tm;
			char w[40];
			localtime_r(&tt, &tm);
			strftime(w, sizeof w, "%m%d%H%M%S", &tm);
			ok = strstr(dg, w) != NULL;
		}
		HX_CHECK(ok, "piece-time", "in zone %s the piece begun between %lld and %lld is called %s", TZS[z], (long long)(t0 / 1000000), (long long)(cx_now_us() / 1000000), order[i]);
		for (int j = 0; j < i; j++) HX_CHECK(strcmp(order[j], order[i]), "piece-name-twice", "two pieces have the name %s", order[i]);
		t0 = cx_now_us();
	}
	close_logger(h);
	judge(4, 64, true);
	setenv("TZ", "UTC0", 1);
	tzset();
}
#define S(n) static void s_##n(void) { run(b_##n); }
S(pieces) S(samems) S(full) S(big) S(two) S(deinit) S(init) S(oom) S(iofail) S(scale) S(zone)
const hx_scn_t hx_scenarios[] = {
	{ "pieces", s_pieces, 0, 1, "every sequence of 3 (4) message lengths around every piece limit; worker concurrent or in step" },
	{ "pieces-threads", s_deinit, 3, 4, "0-3 messages and deinit at every moment" },
	{ "same-millisecond", s_samems, 1, 2, "several pieces begun while the clock shows the same millisecond" },
	{ "full", s_full, 1, 2, "messages that fill or exceed the queue, with and without the keep-log option and a lock" },
	{ "big", s_big, 1, 2, "messages around and above the caller-side cache size" },
	{ "two-loggers", s_two, 2, 3, "two logging threads sharing the logger's lock" },
	{ "init", s_init, 1, 2, "bad configurations; each failing allocation, thread or semaphore creation" },
	{ "oom", s_oom, 1, 2, "an allocation fails while a long message is logged" },
	{ "scale", s_scale, 0, 0, "messages of 255 .. 131073 bytes; 2500 messages in pieces of up to 100000 bytes" },
	{ "zone", s_zone, 0, 0, "six time zones, six moments: the names of the pieces" },
	{ "io-failure", s_iofail, 0, 1, "the k-th open, mkdir or write fails, once or from then on" },
};
const int hx_n_scenarios = 11;
