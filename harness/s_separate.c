/* S01: operations on separate objects do not influence one another: run by two
 * threads at once (every schedule up to the preemption bound, with the
 * happens-before race check), one after the other in any order, or inside one
 * another at every operation and callback, each program gives what it gives alone. */
#include "cx.h"
#include "vfs.h"
#include <pthread.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "lcu.h"
#include "data/array.h"
#include "data/base64.h"
#include "data/hashmap.h"
#include "data/hash_functions.h"
#include "data/integer.h"
#include "data/list.h"
#include "file/file_iterator.h"
#include "file/file_util.h"
#include "file/ini_parser.h"
#include "file/ini_reader.h"
#include "log/file_logger.h"
#include "log/slog.h"
#include "mem/allocator.h"
#include "mem/mplite.h"
#include "mem/str_params.h"
#include "mem/stringbuilder.h"
#include "mem/strings.h"
#include "net/url_encoder_decoder.h"
#include "ring/autocover_buffer.h"
#include "ring/fixed_msg_queue.h"
#include "ring/fixed_msg_queue_handler.h"
#include "ring/msg_queue.h"
#include "ring/msg_queue_handler.h"
#include "ring/ring_buf.h"
#include "ring/ringbuffer.h"
#include "thread/thpool.h"
#include "time/time_rfc1123.h"
#include "time/time_rfc2822.h"
#include "time/time_util.h"

/* a run of a program: salt makes the data of two runs differ, h collects what was seen */
typedef struct run { int prog, salt, mids; uint64_t h; char log[1200]; int n; } run_t;
static run_t* nest_outer;      /* inside this run, at its nest_at-th step, nest_inner runs */
static run_t* nest_inner;
static int nest_at;
static bool concurrent;
static void go(run_t* r);

static void mid(run_t* r)
{
	r->mids++;
	if (concurrent) cx_point("step");
	if (r == nest_outer && r->mids == nest_at) { nest_outer = NULL; go(nest_inner); }
}
static void see(run_t* r, const char* what, const void* p, size_t n)
{
	r->h = hx_hash(hx_mix(r->h, n), p, n);
	if (r->n < (int)sizeof r->log - 80) r->n += snprintf(r->log + r->n, sizeof r->log - r->n, " %s=%.*s", what, (int)(n > 40 ? 40 : n), (const char*)p);
}
static void num(run_t* r, const char* what, long v)
{
	char b[32];
	see(r, what, b, snprintf(b, sizeof b, "%ld", v));
	mid(r);
}
static void str(run_t* r, const char* what, const char* s) { if (!s) s = "(null)"; see(r, what, s, strlen(s)); mid(r); }

static bool streq(const void* a, const void* b) { return !strcmp(a, b); }
static bool each_map(void* k, void* v, void* c) { run_t* r = c; str(r, "key", k); str(r, "value", v); return true; }
static void p_hashmap(run_t* r)
{
	hashmap_t* m = hashmap_create(2, hash_function_string, NULL, NULL, streq, NULL);
	char ks[4][8], vs[4][16], *k = ks[3];
	for (int i = 0; i < 4; i++)
	{
		snprintf(ks[i], sizeof ks[i], "%c%d", 'a' + r->salt, i % 3), snprintf(vs[i], sizeof vs[i], "v%d%d", r->salt, i);
		num(r, "put", hashmap_put(m, ks[i], vs[i]) != NULL);
	}
	str(r, "get", hashmap_get(m, k));
	hashmap_foreach(m, each_map, r);
	num(r, "remove", hashmap_remove(m, k) != NULL);
	num(r, "size", (long)hashmap_size(m));
	hashmap_free(m);
}
static bool each_list(void* d, void* c) { str(c, "item", d); return true; }
static void rel(void* p) { free(p); }   /* in a memory-check build free is a macro */
static void p_list(run_t* r)
{
	list_t* l = list_new(rel);
	char b[8];
	for (int i = 0; i < 3; i++)
	{
		snprintf(b, sizeof b, "%d.%d", r->salt, i);
		num(r, "append", i == 1 ? list_prepend(l, strdup(b)) : list_append(l, strdup(b)));
	}
	list_foreach(l, each_list, r);
	num(r, "remove", list_remove(l, list_front(l)));
	str(r, "back", list_back(l));
	num(r, "length", (long)list_length(l));
	list_free(l);
}
static void p_array(run_t* r)
{
	array_t* a = array_new_with_init_capacity(sizeof(int), 2);
	for (int i = 0; i < 4; i++) num(r, "append", array_append_value(a, (uint32_t)(r->salt * 10 + i)));
	for (size_t i = 0; i < array_length(a); i++) num(r, "at", *(int*)array_at(a, i));
	array_free(a);
}
static void p_base64(run_t* r)
{
	char in[16], enc[40], dec[40];
	int n = snprintf(in, sizeof in, "x%dyz~%c?", r->salt, 'A' + r->salt);
	num(r, "encoded", lcu_base64_encode(enc, in, n));
	str(r, "text", enc);
	memset(dec, 0, sizeof dec);
	num(r, "decoded", lcu_base64_decode(dec, enc));
	str(r, "plain", dec);
	num(r, "sizes", lcu_base64_encode_buf_size(n + r->salt) * 1000 + lcu_base64_decode_buf_size(n));
}
static void p_url(run_t* r)
{
	char in[16], enc[64], dec[64], *last = NULL;
	int n = snprintf(in, sizeof in, "q %d&%%/%c", r->salt, 'A' + r->salt);
	num(r, "encoded", lcu_url_encode(enc, sizeof enc, in, n));
	str(r, "text", enc);
	memset(dec, 0, sizeof dec);
	num(r, "decoded", lcu_url_decode(dec, sizeof dec, enc, strlen(enc), &last));
	str(r, "plain", dec);
}
static void p_split(run_t* r)
{
	char b[32], *part[6] = { 0 };
	size_t n = 6;
	snprintf(b, sizeof b, "a%d,,b%d;%c", r->salt, r->salt, 'x' + r->salt);
	strsplit(part, &n, b, ",;");
	num(r, "pieces", (long)n);
	for (size_t i = 0; i < n && i < 6; i++) str(r, "piece", part[i]);
	snprintf(b, sizeof b, "  -%d %d- ", r->salt, r->salt);
	strtrim(b, " -");
	str(r, "trimmed", b);
}
static void p_text(run_t* r)
{
	char b[32], o[32];
	snprintf(b, sizeof b, "ab%dabc%d", r->salt, r->salt);
	char* s = strreplace(b, "ab", r->salt ? "" : "xyz");
	str(r, "replaced", s);
	free(s);
	num(r, "copied", (long)strlcpy(o, b, 6));
	num(r, "joined", (long)strlcat(o, b, 12));
	str(r, "text", o);
	num(r, "hex", (long)str_char2hex(o, sizeof o, b, 4));
	str(r, "hex", o);
	num(r, "characters", (long)strutf8len(r->salt ? "\xc3\xa4z" : "\xe2\x82\xac") + 10 * (long)strnutf8len(b, 5));
}
static void p_sb(run_t* r)
{
	stringbuilder_t* s = stringbuilder_create(4);
	num(r, "char", stringbuilder_appendchar(s, 'A' + r->salt));
	num(r, "str", stringbuilder_appendstr(s, r->salt ? "long text" : "txt"));
	num(r, "format", stringbuilder_appendf(s, "%d-%s", r->salt, "formatted"));
	num(r, "part", stringbuilder_appendnstr(s, "abcdef", 2 + r->salt));
	str(r, "text", stringbuilder_to_string(s));
	num(r, "length", (long)stringbuilder_len(s));
	stringbuilder_destroy(&s);
}
static void p_params(run_t* r)
{
	char b[32];
	snprintf(b, sizeof b, "k=%d;j%d=w;", r->salt, r->salt);
	str_params_ptr p = str_params_create_str(";", b);
	int v = 0;
	num(r, "get", str_params_get_int(p, "k", &v));
	num(r, "value", v);
	num(r, "add", str_params_add_double(p, "d", 1.5 + r->salt));
	double d = 0;
	num(r, "get", str_params_get_double(p, "d", &d));
	num(r, "value", (long)(d * 10));
	str_params_del(p, "k");
	char* t = str_params_to_str(p);
	num(r, "length", t ? (long)strlen(t) : -1);
	free(t);
	str_params_destroy(p);
}
static int each_ini(const char* s, const char* k, const char* v, const void* u)
{
	run_t* r = (run_t*)u;
	str(r, "section", s), str(r, "key", k), str(r, "value", v);
	return 0;
}
static void p_ini(run_t* r)
{
	char b[64], v[32];
	snprintf(b, sizeof b, "[s%d]\na=%d\nB=x%d\n[t]\nc=true\n", r->salt, r->salt + 5, r->salt);
	ini_parser_handle h = ini_parser_parse_str(b);
	snprintf(b, sizeof b, "S%d", r->salt);
	num(r, "get", ini_parser_get_string(h, b, "b", v, sizeof v));
	str(r, "value", v);
	int n = 0;
	num(r, "get", ini_parser_get_int(h, b, "a", &n));
	num(r, "value", n);
	num(r, "put", ini_parser_put_string(h, "u", "k", b));
	num(r, "delete", ini_parser_delete_by_section_key(h, "t", "c"));
	ini_parser_foreach(h, each_ini, r);
	char* t = ini_parser_dump(h);
	str(r, "dump", t);
	free(t);
	ini_parser_destroy(&h);
}
static int each_line(void* u, const char* s, const char* k, const char* v)
{
	run_t* r = u;
	str(r, "section", s), str(r, "key", k), str(r, "value", v);
	return 1;
}
static void p_reader(run_t* r)
{
	char b[64];
	snprintf(b, sizeof b, "[s%d]\nname = v%d ; c\n  more%d\nx=1\nbad\n", r->salt, r->salt, r->salt);
	num(r, "parse", ini_reader_parse_string(b, each_line, r));
}
static void p_mplite(run_t* r)
{
	static char mem[4][2048];
	mplite_t m;
	num(r, "init", mplite_init(&m, mem[r->salt], sizeof mem[0], 32, NULL));
	char* a = mplite_malloc(&m, 40 + 30 * r->salt);
	num(r, "at", a ? a - mem[r->salt] : -1);
	char* b = mplite_calloc(&m, 20);
	num(r, "at", b ? b - mem[r->salt] : -1);
	memset(a, 'A' + r->salt, 40);
	a = mplite_realloc(&m, a, mplite_roundup(&m, 200));
	num(r, "at", a ? a - mem[r->salt] : -1);
	see(r, "data", a, 40);
	mplite_free(&m, b), mplite_free(&m, a);
	num(r, "out", m.currentOut);
}
static void p_ringbuffer(run_t* r)
{
	ring_buffer_handle h = RingBuffer_create(8);
	char o[16];
	for (int i = 0; i < 3; i++)
	{
		num(r, "write", RingBuffer_write(h, &"abcdefgh"[r->salt + i], 5));
		num(r, "read", RingBuffer_read(h, o, 3));
		see(r, "data", o, 3);
	}
	num(r, "left", RingBuffer_available_read(h));
	RingBuffer_destroy(&h);
}
static void p_ring_buf(run_t* r)
{
	ring_handle h = ring_buf_create(7);
	char o[16];
	for (int i = 0; i < 3; i++)
	{
		char in[8] = "stuvwxy";
		in[0] = (char)('0' + r->salt + i);
		num(r, "write", (long)ring_buf_write(h, in, 5));
		num(r, "read", (long)ring_buf_read(h, o, 3));
		see(r, "data", o, 3);
	}
	num(r, "left", (long)ring_buf_available_read(h));
	ring_buf_destroy(&h);
}
static void p_cover(run_t* r)
{
	auto_cover_buf_handle h = auto_cover_buf_create(8, NULL);
	char o[16];
	for (int i = 0; i < 3; i++)
	{
		num(r, "write", auto_cover_buf_write(h, &"mnopqrst"[r->salt + i], 4));
		int k = auto_cover_buf_read(h, (uint32_t)(i * 4), o, 3);
		num(r, "read", k);
		if (k > 0) see(r, "data", o, (size_t)k);
	}
	num(r, "available", auto_cover_buf_available_read(h, 2));
	auto_cover_buf_destroy(&h);
}
static void p_queue(run_t* r)
{
	msg_queue q = msg_queue_create(32);
	char o[32];
	for (int i = 0; i < 3; i++)
	{
		uint32_t n = sizeof o;
		num(r, "push", msg_queue_push(q, &"01234567"[r->salt], (uint32_t)(2 + i)));
		num(r, "push", msg_queue_push(q, &"abcdefgh"[r->salt], (uint32_t)(3 + i)));
		num(r, "next", msg_queue_next_msg_size(q));
		num(r, "pop", msg_queue_pop(q, o, &n));
		see(r, "data", o, n < sizeof o ? n : 0);
	}
	num(r, "left", msg_queue_available_pop_bytes(q));
	msg_queue_destroy(&q);
}
static void p_fixed(run_t* r)
{
	fixed_msg_queue q = fixed_msg_queue_create(16, 8);
	char o[16];
	for (int i = 0; i < 5; i++)
	{
		char m[16] = "";
		snprintf(m, sizeof m, "%d%03d", r->salt, i);
		num(r, "push", fixed_msg_queue_push(q, m));
		if (i % 2 && fixed_msg_queue_pop(q, o)) see(r, "data", o, 16);
	}
	num(r, "left", fixed_msg_queue_available_pop_amount(q));
	fixed_msg_queue_destroy(&q);
}
static void p_numbers(run_t* r)
{
	int k = 77 + r->salt;
	num(r, "hash", hash_function_string(r->salt ? "key" : "other"));
	num(r, "hash", hashmap_hash(&k, sizeof k));
	num(r, "hash", hash_function_integer((void*)(intptr_t)k) + hash_function_naive((void*)(intptr_t)k));
	num(r, "power", integer_roundup_pow_of_two((uint32_t)k * 3) + integer_rounddown_pow_of_two((uint32_t)k) + integer_is_power_of_two((uint32_t)k));
}
static void p_rfc(run_t* r)
{
	time_t t = 1700000000 + r->salt * 100000007L;
	char b[64];
	num(r, "rfc1123", time_rfc1123(&t, b, sizeof b));
	str(r, "text", b);
	num(r, "rfc2822", time_rfc2822(&t, b, sizeof b));
	str(r, "text", b);
	num(r, "utc", time_rfc2822_utc(&t, b, sizeof b));
	str(r, "text", b);
}
static void p_date(run_t* r)
{
	struct timeval tv = { 1700000000 + r->salt * 100000007L, 123000 + r->salt };
	char b[TIME_STR_SIZE];
	struct tm tm;
	memset(&tm, 0, sizeof tm);
	num(r, "date", time_util_fast_second2date(&tv.tv_sec, &tm, r->salt));
	num(r, "date", ((tm.tm_year * 12L + tm.tm_mon) * 31 + tm.tm_mday) * 86400 + tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec);
	num(r, "text", time_util_get_time_str(&tv, b, r->salt));
	str(r, "text", b);
	num(r, "text", time_util_get_time_str_for_file_name(&tv, b, 8));
	str(r, "text", b);
	num(r, "offset", time_util_zone_offset_seconds_to_utc());
}
static void p_alloc(run_t* r)
{
	char* a = lcu_strdup(r->salt ? "first" : "second");
	char* b = lcu_malloc(8);
	char* c = lcu_calloc(3, 3);
	memset(b, 'a' + r->salt, 8);
	mid(r);
	b = lcu_realloc(b, 20 + r->salt);
	see(r, "grown", b, 8);
	str(r, "copy", a);
	see(r, "zeros", c, 9);
	a[0] = 'X', mid(r), str(r, "copy", a);
	lcu_free(a), lcu_free(b), lcu_free_and_reset((void**)&c);
	num(r, "reset", c == NULL);
}
static int line(int n, char* t, void* u) { num(u, "line", n); str(u, "text", t); return 0; }
static void p_file(run_t* r)
{
	char d[32], p[48], b[48], *all = NULL;
	int n = 0;
	snprintf(d, sizeof d, "/w%d/x/y", r->salt), snprintf(p, sizeof p, "%s/f.txt", d);
	num(r, "mkdirs", file_util_mkdirs(d));
	num(r, "dir", file_util_access(d, 0));
	n = snprintf(b, sizeof b, "one%d\n\nthree%d", r->salt, r->salt);
	vfs_put(p, b, (size_t)n);
	num(r, "read", file_util_read_txt(p, line, r));
	n = 0;
	num(r, "all", file_util_read_all(p, &all, &n));
	if (all) see(r, "data", all, (size_t)n);
	free(all);
	num(r, "size", file_util_get_size_by_path(p));
	strcpy(b, d);
	num(r, "slash", file_util_append_slash_on_path_if_needed(b, sizeof b));
	str(r, "path", b);
}
static int entry(file_info_t* i, void* u) { run_t* r = u; str(r, "dir", i->dir), str(r, "name", i->name), num(r, "type", i->type), num(r, "size", S_ISDIR(i->p_stat->st_mode) ? -1 : (long)i->p_stat->st_size); return 0; }
static void p_walk(run_t* r)
{
	char d[32], p[48];
	snprintf(d, sizeof d, "/i%d", r->salt);
	for (int i = 0; i < 3; i++) { snprintf(p, sizeof p, "%s/e%d%d", d, r->salt, i); if (i == 1) vfs_mkdirp(p); else vfs_mkdirp(d), vfs_put(p, "xyz", (size_t)(1 + r->salt)); }
	num(r, "walk", file_iterator_foreach(d, entry, r));
}
static void p_inifile(run_t* r)
{
	char p[32], b[48], v[32] = "";
	vfs_mkdirp("/c");
	snprintf(p, sizeof p, "/c/f%d.ini", r->salt);
	int n = snprintf(b, sizeof b, "[s]\nk = v%d\n", r->salt);
	vfs_put(p, b, (size_t)n);
	ini_parser_handle h = ini_parser_parse_file(p);
	num(r, "parsed", h != NULL);
	if (!h) return;
	num(r, "get", ini_parser_get_string(h, "s", "k", v, sizeof v));
	str(r, "value", v);
	num(r, "put", ini_parser_put_string(h, "s", "n", p));
	num(r, "save", ini_parser_save(h, p));
	ini_parser_destroy(&h);
	size_t k = 0;
	const char* d = vfs_get(p, &k);
	see(r, "file", d ? d : "", k);
	num(r, "parse", ini_reader_parse(p, each_line, r));
}
typedef struct { run_t* r; int sum; } job_t;
static void job(void* a) { job_t* j = a; j->sum += 7 + j->r->salt; }
static void p_pool(run_t* r)
{
	threadpool p = thpool_init(1);
	job_t j = { r, 0 };
	num(r, "add", thpool_add_work(p, job, &j));
	if (r->salt) num(r, "add", thpool_add_work(p, job, &j));
	thpool_wait(p);
	num(r, "done", j.sum);
	thpool_destroy(p);
}
typedef struct { run_t* r; int got[4], n, st; } rcv_t;
static int rcv(queue_msg_t* m, void* u) { rcv_t* c = u; if (c->n < 4) c->got[c->n++] = m->what * 100 + m->obj[0]; return 0; }
static void stq(msg_q_handler_status_e s, void* u) { ((rcv_t*)u)->st = ((rcv_t*)u)->st * 10 + s + 1; }
static bool got_one(void* u) { return ((rcv_t*)u)->n >= 1; }
static void p_handler(run_t* r)
{
	rcv_t c = { r };
	msg_queue_handler_init_param_t ip = { &c, rcv, stq };
	msg_queue_handler h = msg_queue_handler_create(128, &ip);
	char b[sizeof(queue_msg_t) + 4] __attribute__((aligned(8)));
	queue_msg_t* m = (queue_msg_t*)b;
	memset(b, 0, sizeof b);
	m->what = 3 + r->salt, m->obj_len = 1, m->obj[0] = (char)(5 + r->salt);
	num(r, "push", msg_queue_handler_push(h, m));
	cx_until(got_one, &c, "a delivery");
	msg_queue_handler_destroy(&h);
	num(r, "got", c.n * 1000 + c.got[0]);
	num(r, "status", c.st);
}
static int rcf(fixed_msg_t* m, void* u) { rcv_t* c = u; if (c->n < 4) c->got[c->n++] = m->what * 100 + m->obj.data[0]; return 0; }
static void p_fhandler(run_t* r)
{
	rcv_t c = { r };
	fixed_msg_queue_handler_init_param_t ip = { &c, rcf, stq };
	fixed_msg_queue_handler h = fixed_msg_queue_handler_create(4, &ip);
	static fixed_msg_t ms[4];
	fixed_msg_t* m = &ms[r->salt];
	m->what = 3 + r->salt, m->obj.data_len = 1, m->obj.data[0] = (char)(5 + r->salt);
	num(r, "push", fixed_msg_queue_handler_push(h, m));
	cx_until(got_one, &c, "a delivery");
	fixed_msg_queue_handler_destroy(&h);
	num(r, "got", c.n * 1000 + c.got[0]);
	num(r, "status", c.st);
}
static void p_logger(run_t* r)
{
	file_logger_cfg cfg;
	memset(&cfg, 0, sizeof cfg);
	snprintf(cfg.log_folder_path, sizeof cfg.log_folder_path, "/l%d", r->salt);
	snprintf(cfg.log_file_name_prefix, sizeof cfg.log_file_name_prefix, "p%d", r->salt);
	cfg.one_piece_file_max_len = 4096, cfg.log_queue_size = 2;
	file_logger_handle h = file_logger_init(&cfg);
	num(r, "init", h != NULL);
	char b[32];
	int n = snprintf(b, sizeof b, "message of %d", r->salt);
	num(r, "log", file_logger_log(h, b, (size_t)n));
	num(r, "deinit", file_logger_deinit(&h));
	for (int i = 0; i < vfs_count(); i++)
	{
		int dir;
		const char* p = vfs_name(i, &dir);
		char w[16];
		snprintf(w, sizeof w, "/l%d/", r->salt);
		if (dir || strncmp(p, w, strlen(w))) continue;
		size_t k;
		const char* d = vfs_get(p, &k);
		see(r, "file", d, k);
	}
}
static const struct { const char* name; void (*fn)(run_t*); int threads; } P[] = {
	{ "hashmap", p_hashmap }, { "list", p_list }, { "array", p_array }, { "base64", p_base64 }, { "url", p_url },
	{ "strsplit", p_split }, { "strings", p_text }, { "stringbuilder", p_sb }, { "str_params", p_params },
	{ "ini_parser", p_ini }, { "ini_reader", p_reader }, { "mplite", p_mplite }, { "ringbuffer", p_ringbuffer },
	{ "ring_buf", p_ring_buf }, { "autocover_buffer", p_cover }, { "msg_queue", p_queue }, { "fixed_msg_queue", p_fixed },
	{ "numbers", p_numbers }, { "rfc dates", p_rfc }, { "dates", p_date }, { "allocator", p_alloc }, { "files", p_file },
	{ "file_iterator", p_walk }, { "ini file", p_inifile },
	{ "thpool", p_pool, 1 }, { "msg_queue_handler", p_handler, 1 }, { "fixed_msg_queue_handler", p_fhandler, 1 }, { "file_logger", p_logger, 1 },
#ifdef MORE_PROGRAMS
	MORE_PROGRAMS
#endif
};
#define N ((int)(sizeof P / sizeof *P))
static int plain(void) { int n = 0; while (n < N && !P[n].threads) n++; return n; }
static void go(run_t* r) { r->h = 1, r->n = r->mids = 0; P[r->prog].fn(r); }
static run_t alone[2], run_[2];
static void same(run_t* a, const run_t* w, const char* how)
{
	HX_CHECK(a->h == w->h, "influenced", "the %s program %s sees\n  %s\nalone it sees\n  %s", P[a->prog].name, how, a->log, w->log);
}
static void begin(void)
{
	slog_set_min_level(LOG_LEVEL_OFF);
	vfs_reset();
	concurrent = false;
	nest_outer = NULL;
}
static void make(int i, int j)
{
	memset(alone, 0, sizeof alone), memset(run_, 0, sizeof run_);
	alone[0].prog = i, alone[1].prog = j, alone[0].salt = 0, alone[1].salt = 1;
	run_[0] = alone[0], run_[1] = alone[1];
}
static void* thread(void* a) { go(a); return NULL; }
static int when;
static void solo(void) { for (int k = 0; k < 2; k++) { vfs_reset(); go(&alone[k]); } vfs_reset(); }
static void b_threads(void* a)
{
	(void)a;
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	if (!when) solo();
	pthread_t t;
	concurrent = true;
	pthread_create(&t, NULL, thread, &run_[1]);
	go(&run_[0]);
	pthread_join(t, NULL);
	concurrent = false;
	if (when) solo();
	for (int k = 0; k < 2; k++) same(&run_[k], &alone[k], "beside another one");
	lcu_global_cleanup();
}
#ifndef ONLY_PROGRAMS
/* every pair (i <= j: the other order is among the schedules) of programs lo .. hi-1 with 0 .. hi-1 */
static void pair(int lo, int hi)
{
	int j = lo + hx_choose(hi - lo, "program 2"), i = hx_choose(j + 1, "program 1");
	hx_log("%s beside %s", P[i].name, P[j].name);
	begin();
	when = hx_choose(2, "alone afterwards");
	make(i, j);
	cx_opt.time_step_us = 600000;     /* the grace period of a pool's destruction */
	cx_run(b_threads, NULL);
	if (cx_stuck()) hx_fail("stuck", "%s beside %s: %d threads do not end", P[i].name, P[j].name, cx_stuck());
	cx_check_leaks("leak");
}
static void threads(void) { pair(0, plain()); }
static void busy(void) { pair(plain(), N); }
static int at_;
static void b_nested(void* a)
{
	(void)a;
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	if (!when) solo();
	run_t* o = &run_[0];
	nest_outer = o, nest_inner = &run_[1], nest_at = at_;
	go(o);
	if (nest_outer) hx_prune();       /* it has fewer steps */
	if (when) solo();
	for (int k = 0; k < 2; k++) same(&run_[k], &alone[k], k ? "inside another one" : "around another one");
	lcu_global_cleanup();
}
static void nested(void)
{
	int i = hx_choose(plain(), "outer program"), j = hx_choose(N, "inner program");
	begin();
	when = hx_choose(2, "alone afterwards");
	at_ = 1 + hx_choose(40, "step");
	hx_log("%s inside step %d of %s", P[j].name, at_, P[i].name);
	make(i, j);
	cx_opt.one_schedule = true, cx_opt.time_step_us = 600000;
	cx_run(b_nested, NULL);
	if (cx_stuck()) hx_fail("stuck", "%s inside %s: %d threads do not end", P[j].name, P[i].name, cx_stuck());
	cx_check_leaks("leak");
}
/* a paused pool stays paused whatever happens to other pools */
static int ran;
static void count(void* a) { (void)a; ran++; cx_event("job", ran, 0); }
static bool idle(void* a) { (void)a; for (int t = 1; t < cx_nthreads(); t++) if (!cx_blocked(t)) return false; return true; }
static void b_paused(void* a)
{
	(void)a;
	int n = 1 + hx_choose(2, "workers of the other pool"), order = hx_choose(2, "the other pool is made first");
	threadpool q = NULL, p;
	if (order) q = thpool_init(n);
	p = thpool_init(1);
	cx_until(idle, NULL, "idle workers");   /* T03 has the pauses of busy workers */
	thpool_pause(p);
	usleep(1);
	cx_point("paused");
	if (!order) q = thpool_init(n);
	thpool_add_work(p, count, NULL);
	job_t j = { &run_[0], 0 };
	thpool_add_work(q, job, &j);
	thpool_wait(q);
	HX_CHECK(j.sum == 7, "other-pool", "the other pool's job ran %d times", j.sum / 7);
	thpool_destroy(q);
	sleep(30);
	HX_CHECK(!ran, "paused-pool-works", "a paused pool ran its job after another pool was used");
	thpool_resume(p);
	thpool_wait(p);
	HX_CHECK(ran == 1, "resumed", "after the resume the job ran %d times", ran);
	thpool_destroy(p);
}
static void paused(void)
{
	begin();
	ran = 0;
	make(0, 0);
	cx_opt.time_step_us = 600000;
	cx_run(b_paused, NULL);
	if (cx_stuck()) hx_fail("stuck", "%d threads do not end", cx_stuck());
	cx_check_leaks("leak");
}
const hx_scn_t hx_scenarios[] = {
	{ "threads", threads, 2, 3, "every pair of 24 programs on separate objects (containers, rings, queues, strings, parsers, files, dates) run by two threads: all schedules, data races, results as alone" },
	{ "busy", busy, 1, 2, "every pair with one of the programs that have threads of their own (pool, handlers, file logger)" },
	{ "nested", nested, 0, 0, "every program run inside every step and callback of every other" },
	{ "paused", paused, 1, 2, "a paused pool while another pool is made, works and is destroyed: it stays paused until it is resumed" },
};
const int hx_n_scenarios = 4;
#endif
