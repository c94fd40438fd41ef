/* M08: in a build with the memory check (_LCU_MEM_CHECK_FEATURE_ENABLE, mem/mem_debug.h)
 * everything behaves as in an ordinary one, and what is reported as not released is
 * exactly what is not released. */
#include "mem/mem_debug.h"
#define ONLY_PROGRAMS
#define MORE_PROGRAMS { "failing file operations", e_files }, { "long ini line", e_line }, { "replaced parameters", e_params }, \
	{ "replaced ini entries", e_ini }, { "emptied list", e_list }, { "destroyed with contents", e_full }, { "refused creations", e_refused }, \
	{ "long handler message", e_handler, 1 }, { "long file log message", e_logger, 1 }, \
	{ "long log message", e_xlog },     /* last: its configuration is everybody's */
typedef struct run run_t;
static void e_xlog(run_t* r), e_files(run_t* r), e_line(run_t* r), e_params(run_t* r), e_ini(run_t* r), e_list(run_t* r), e_full(run_t* r), e_refused(run_t* r), e_handler(run_t* r), e_logger(run_t* r);
#include "s_separate.c"
#include "log/xlog.h"

/* ---- programs of the ways on which memory changes hands ---- */
static void e_cb(LogLevel l, void* m, size_t n, void* u) { num(u, "level", l), num(u, "bytes", (long)n), see(u, "end", (char*)m + n - 5, 4); }
static void e_xlog(run_t* r)
{
	static char t[4000];
	memset(t, 'x', sizeof t - 1);
	t[sizeof t - 2] = (char)('0' + r->salt);
	xlog_set_format(LOG_FORMAT_RAW);
	xlog_set_target(LOG_TARGET_USER_CALLBACK);
	xlog_set_min_level(LOG_LEVEL_VERBOSE);
	xlog_set_user_callback(e_cb, r);
	__xlog_internal_print(LOG_LEVEL_INFO, "t", NULL, 0, "%s", t);
	__xlog_internal_print(LOG_LEVEL_WARN, "t", NULL, 0, "short %d", r->salt);
	__xlog_internal_print(LOG_LEVEL_INFO, "t", NULL, 0, "%s", t);
	xlog_set_target(LOG_TARGET_NONE);
	xlog_set_user_callback(NULL, NULL);
}
static void e_files(run_t* r)
{
	char* all = NULL;
	int n = 0;
	char dir[16], none_[16], empty[16], deep[32], out[16];
	snprintf(dir, sizeof dir, "/e%d/dir", r->salt), snprintf(none_, sizeof none_, "/e%d/none", r->salt), snprintf(empty, sizeof empty, "/e%d/empty", r->salt);
	snprintf(deep, sizeof deep, "%s/there/f", none_), snprintf(out, sizeof out, "/e%d/f", r->salt);
	vfs_mkdirp(dir);
	vfs_put(empty, "", 0);
	num(r, "all of a folder", file_util_read_all(dir, &all, &n) == 0);
	if (all) free(all);
	all = NULL;
	num(r, "all of nothing", file_util_read_all(none_, &all, &n) == 0);
	num(r, "all of an empty file", file_util_read_all(empty, &all, &n) == 0);
	if (all) free(all);
	ini_parser_handle h = ini_parser_parse_file(none_);
	num(r, "parsed", h != NULL);
	if (h) ini_parser_destroy(&h);
	h = ini_parser_parse_file(empty);
	num(r, "parsed", h != NULL);
	if (h) ini_parser_destroy(&h);
	h = ini_parser_parse_str("[a]\nb=c\n");
	num(r, "saved", ini_parser_save(h, deep));
	num(r, "saved", ini_parser_save(h, out));
	num(r, "saved", ini_parser_save(h, out));
	ini_parser_destroy(&h);
	num(r, "gone", h == NULL);
}
static void e_line(run_t* r)
{
	static char both[2][3000];
	char* t = both[r->salt];
	int n = sprintf(t, "[s]\nk = ");
	memset(t + n, 'a' + r->salt, 1500), n += 1500;
	strcpy(t + n, "\nj=2\n");
	num(r, "parse", ini_reader_parse_string(t, each_line, r));
	ini_parser_handle h = ini_parser_parse_str(t);
	num(r, "parsed", h != NULL);
	if (!h) return;
	char* d = ini_parser_dump(h);
	num(r, "dump", d ? (long)strlen(d) : -1);
	free(d);
	ini_parser_destroy(&h);
}
static void e_params(run_t* r)
{
	char b[64], v[16] = "";
	snprintf(b, sizeof b, "k=%d;k=zz;;=x;j;j=;k=%d", r->salt, r->salt + 1);
	str_params_ptr p = str_params_create_str(";", b);
	num(r, "get", str_params_get_str(p, "k", v, sizeof v));
	str(r, "value", v);
	num(r, "add", str_params_add_str(p, "k", "new")), num(r, "add", str_params_add_str(p, "k", "newer"));
	num(r, "add", str_params_add_int(p, "i", r->salt)), num(r, "add", str_params_add_int(p, "i", 9));
	str_params_del(p, "j"), str_params_del(p, "none"), str_params_del(p, "k"), str_params_del(p, "k");
	for (int i = 0; i < 2; i++)
	{
		char* t = str_params_to_str(p);
		str(r, "text", t);
		free(t);
		num(r, "add", str_params_add_str(p, "m", "w"));
	}
	str_params_destroy(p);
	p = str_params_create_str(",", "");
	char* t = str_params_to_str(p);
	str(r, "text", t);
	free(t);
	str_params_destroy(p);
	p = str_params_create(NULL);
	str_params_destroy(p);
}
static void e_ini(run_t* r)
{
	ini_parser_handle h = ini_parser_parse_str("[s]\na=1\na=2\nb=3\n[t]\nc=4\n[s]\nb=5\n");
	for (int i = 0; i < 2; i++)
	{
		num(r, "put", ini_parser_put_string(h, "s", "a", r->salt ? "x" : "a longer value"));
		num(r, "put", ini_parser_put_string(h, "new", "a", "1"));
		num(r, "delete", ini_parser_delete_by_section_key(h, "s", "b"));
		num(r, "delete", ini_parser_delete_by_section_key(h, "s", "none"));
		num(r, "delete", ini_parser_delete_section(h, "t"));
		num(r, "delete", ini_parser_delete_section(h, "none"));
		char* d = ini_parser_dump(h);
		str(r, "dump", d);
		free(d);
	}
	ini_parser_destroy(&h);
	h = ini_parser_parse_str("");
	num(r, "parsed", h != NULL);
	if (h) ini_parser_destroy(&h);
	h = ini_parser_parse_str("[s\nnonsense\n[t]\nk=v\nnonsense\n");
	num(r, "parsed", h != NULL);
	if (h) ini_parser_destroy(&h);
}
static void e_list(run_t* r)
{
	list_t* l = list_new(rel);
	for (int i = 0; i < 3; i++) num(r, "append", list_append(l, strdup("x")));
	num(r, "insert", list_insert_after(l, list_begin(l), strdup("y")));
	num(r, "remove", list_remove(l, list_back(l)));
	list_clear(l);
	num(r, "length", (long)list_length(l));
	num(r, "append", list_append(l, malloc(3 + (size_t)r->salt)));
	list_free(l);
	hashmap_t* m = hashmap_create(1, hash_function_string, rel, rel, streq, NULL);
	for (int i = 0; i < 5; i++) { char k[4] = { (char)('a' + i % 3) }; char* c = strdup(k); char* old = hashmap_put(m, c, malloc(5)); num(r, "put", old != NULL); if (old) free(c); }
	num(r, "remove", hashmap_remove(m, "a") != NULL);
	hashmap_clear(m);
	num(r, "size", (long)hashmap_size(m));
	hashmap_put(m, strdup("q"), malloc(1));
	hashmap_free(m);
}
static void e_full(run_t* r)
{
	msg_queue q = msg_queue_create(64);
	num(r, "push", msg_queue_push(q, "abcd", 4));
	msg_queue_destroy(&q);
	fixed_msg_queue f = fixed_msg_queue_create(8, 4);
	num(r, "push", fixed_msg_queue_push(f, "abcdefgh"));
	fixed_msg_queue_destroy(&f);
	auto_cover_buf_handle a = auto_cover_buf_create(8, NULL);
	num(r, "write", auto_cover_buf_write(a, "abc", 3));
	auto_cover_buf_destroy(&a);
	stringbuilder_t* s = stringbuilder_create(2);
	num(r, "format", stringbuilder_appendf(s, "%040d", r->salt));
	stringbuilder_destroy(&s);
	num(r, "gone", !q && !f && !a && !s);
}
static void e_refused(run_t* r)
{
	char in[40], v[8];
	num(r, "queue", msg_queue_create(0) != NULL);
	num(r, "fixed", fixed_msg_queue_create(0, 0) != NULL);
	num(r, "cover", auto_cover_buf_create(0, NULL) != NULL);
	num(r, "handler", msg_queue_handler_create(64, NULL) != NULL);
	num(r, "fixed handler", fixed_msg_queue_handler_create(2, NULL) != NULL);
	num(r, "logger", file_logger_init(NULL) != NULL);
	snprintf(in, sizeof in, "k=%d", r->salt);
	str_params_ptr p = str_params_create_str(";", in);
	num(r, "small", str_params_get_str(p, "k", v, 1));
	num(r, "none", str_params_get_str(p, "q", v, sizeof v));
	str_params_destroy(p);
	str_params_destroy(NULL);
	char* t = strreplace("abc", "", "x");
	str(r, "replaced", t);
	free(t);
	t = strreplace(in, "k", "");
	str(r, "replaced", t);
	free(t);
}
static int e_got(queue_msg_t* m, void* u) { rcv_t* c = u; if (c->n < 4) c->got[c->n++] = m->what * 100 + (m->obj_len > 4000) + m->obj[m->obj_len - 1]; return 0; }
static bool got_two(void* u) { return ((rcv_t*)u)->n >= 2; }
static void e_handler(run_t* r)
{
	rcv_t c = { r };
	msg_queue_handler_init_param_t ip = { &c, e_got, stq };
	msg_queue_handler h = msg_queue_handler_create(20000, &ip);
	queue_msg_t* m = calloc(1, sizeof *m + 5000);
	m->what = 3 + r->salt, m->obj_len = 1, m->obj[0] = 'a';
	num(r, "push", msg_queue_handler_push(h, m));
	m->obj_len = 5000, m->obj[4999] = 'z';
	num(r, "push", msg_queue_handler_push(h, m));
	free(m);
	cx_until(got_two, &c, "deliveries");
	msg_queue_handler_destroy(&h);
	num(r, "got", c.n), num(r, "got", c.got[0]), num(r, "got", c.got[1]);
}
static void e_logger(run_t* r)
{
	static char t[2][6001];
	file_logger_cfg cfg;
	memset(&cfg, 0, sizeof cfg);
	snprintf(cfg.log_folder_path, sizeof cfg.log_folder_path, "/L%d", r->salt);
	snprintf(cfg.log_file_name_prefix, sizeof cfg.log_file_name_prefix, "p%d", r->salt);
	cfg.one_piece_file_max_len = 4096, cfg.log_queue_size = 2, cfg.is_try_my_best_to_keep_log = r->salt;
	file_logger_handle h = file_logger_init(&cfg);
	num(r, "init", h != NULL);
	char* b = t[r->salt];
	memset(b, 'm', 6000);
	num(r, "log", file_logger_log(h, b, 1100) == 0);
	num(r, "log", file_logger_log(h, b, 6000) == 0 || r->salt == 0);
	num(r, "log", file_logger_log(h, b, 5) >= -100);
	num(r, "deinit", file_logger_deinit(&h));
}

/* ---- the programs of S01 with the check on and off ---- */
static long unfreed, reports;
static char first[200];
static void report(void* p, size_t n, char* file, char* func, int ln, void* u)
{
	(void)p, (void)u;
	if (!reports++) snprintf(first, sizeof first, "%zu bytes of %s:%d (%s)", n, file, ln, func);
}
static void none(const char* when_)
{
	reports = 0, first[0] = 0;
	unfreed = (long)allocation_tracker_expect_no_allocations(report, NULL);
	HX_CHECK(!unfreed && !reports, "reported", "%s %ld bytes in %ld blocks are reported as not released, the first: %s", when_, unfreed, reports, first);
}
static int order;
static void b_program(void* a)
{
	(void)a;
	if (order & 1) MEM_CHECK_INIT();
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	if (order & 1) go(&run_[0]); else go(&alone[0]);
	if (order & 1) { lcu_global_cleanup(); none("after everything was released"); MEM_CHECK_DEINIT(); }
	else { lcu_global_cleanup(); MEM_CHECK_INIT(); }
	vfs_reset();
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	if (order & 1) go(&alone[0]); else go(&run_[0]);
	lcu_global_cleanup();
	if (!(order & 1)) { none("after everything was released"); MEM_CHECK_DEINIT(); }
	same(&run_[0], &alone[0], "while memory is checked");
}
static void finish(const char* what)
{
	if (cx_stuck()) hx_fail("stuck", "%s: %d threads do not end", what, cx_stuck());
	allocation_tracker_uninit();
	cx_check_leaks("leak");
}
static void programs(int lo, int hi)
{
	int i = lo + hx_choose(hi - lo, "program"), salt = hx_choose(2, "data");
	order = hx_choose(2, "checked first");
	hx_log("%s, %s", P[i].name, order ? "checked, then not" : "not checked, then checked");
	begin();
	make(i, i);
	if (salt) alone[0].salt = run_[0].salt = 1;
	cx_opt.time_step_us = 600000;
	cx_run(b_program, NULL);
	finish(P[i].name);
}
static void all(void) { programs(0, N); }
static void b_pair(void* a)
{
	(void)a;
	if (!when) { if (lcu_global_init()) hx_fail("init", "lcu_global_init"); solo(); lcu_global_cleanup(); }
	MEM_CHECK_INIT();
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	pthread_t t;
	concurrent = true;
	pthread_create(&t, NULL, thread, &run_[1]);
	go(&run_[0]);
	pthread_join(t, NULL);
	concurrent = false;
	lcu_global_cleanup();
	none("after two threads released everything");
	MEM_CHECK_DEINIT();
	if (when) { if (lcu_global_init()) hx_fail("init", "lcu_global_init"); solo(); lcu_global_cleanup(); }
	for (int k = 0; k < 2; k++) same(&run_[k], &alone[k], "beside another one while memory is checked");
}
static void pairs(void)
{
	int i = hx_choose(N - 1, "program");
	int j = hx_choose(2, "the other") ? 8 : i;      /* itself, or str_params */
	begin();
	when = hx_choose(2, "alone afterwards");
	hx_log("%s beside %s", P[i].name, P[j].name);
	make(i, j);
	cx_opt.time_step_us = 600000;
	cx_run(b_pair, NULL);
	finish(P[i].name);
}

/* ---- what a program allocates and releases itself ---- */
#define MAXB 6
static struct { char* p; size_t n; bool atleast; int line; const char* func; char tag; bool seen; } B[MAXB];
static int nb;
static bool on;
static void keep(void* p, size_t n, int line_, const char* func, char tag)
{
	HX_CHECK(p, "alloc", "no memory");
	B[nb].p = p, B[nb].n = n, B[nb].line = line_, B[nb].func = func, B[nb].tag = tag, B[nb].atleast = false;
	nb++;
}
static void each(void* p, size_t n, char* file, char* func, int ln, void* u)
{
	HX_CHECK(u == B, "argument", "the report's argument is another");
	reports++;
	for (int i = 0; i < nb; i++)
		if (B[i].p == p)
		{
			HX_CHECK(!B[i].seen, "twice", "a block is reported twice");
			B[i].seen = true;
			HX_CHECK(B[i].atleast ? n >= B[i].n : n == B[i].n, "size", "a block of %zu bytes is reported with %zu", B[i].n, n);
			HX_CHECK(ln == B[i].line, "line", "a block of line %d is reported for %d", B[i].line, ln);
			HX_CHECK(!strncmp(file, __FILE__, strlen(file)) && (strlen(file) == strlen(__FILE__) || strlen(file) >= 127), "file", "a block of %s is reported for %s", __FILE__, file);
			HX_CHECK(!strcmp(func, B[i].func), "function", "a block of %s is reported for %s", B[i].func, func);
			return;
		}
	hx_fail("foreign", "a block that is not the program's is reported: %zu bytes of %s:%d (%s)", n, file, ln, func);
}
static size_t audit(void)
{
	size_t want = 0;
	bool some = false;
	for (int i = 0; i < nb; i++)
	{
		B[i].seen = false, want += B[i].n, some |= B[i].atleast;
		for (size_t k = 0; k < B[i].n && B[i].tag; k++) HX_CHECK(B[i].p[k] == B[i].tag || (B[i].tag == '0' && !B[i].p[k]), "contents", "byte %zu of a block changed to %d", k, B[i].p[k]);
	}
	if (!on) want = 0, some = false;
	reports = 0;
	size_t got = allocation_tracker_expect_no_allocations(each, B);
	HX_CHECK(some ? got >= want : got == want, "sum", "%zu bytes are reported, it is %zu", got, want);
	HX_CHECK(reports == (on ? nb : 0), "count", "%ld blocks are reported, there are %d", reports, nb);
	hx_trans(1);
	uint64_t h = (uint64_t)on;
	for (int i = 0; i < nb; i++) h = hx_mix(h, B[i].n * 64 + (uint64_t)B[i].tag);
	hx_state(h);
	return got;
}
static void drop(int i) { free(B[i].p); B[i] = B[--nb]; }
static void other_function(void) { keep(malloc(9), 9, __LINE__, __func__, 'm'); memset(B[nb - 1].p, 'm', 9); }
static int depth;
static void b_sequence(void* a)
{
	(void)a;
	char text[] = "abcdefgh";
	nb = 0;
	if (on) MEM_CHECK_INIT();
	for (int step = 0; step < depth; step++)
	{
		int op = hx_choose(11, "step");
		if (!op) break;
		if (op < 7 && nb == MAXB) hx_prune();
		if (op >= 7 && op <= 9 && !nb) hx_prune();
		int l;
		switch (op)
		{
		case 1: hx_log("malloc"); other_function(); break;
		case 2: { hx_log("calloc"); char* p = calloc(2, 3); l = __LINE__; keep(p, 6, l, __func__, 0); for (int i = 0; i < 6; i++) HX_CHECK(!p[i], "zeroes", "byte %d is %d", i, p[i]); memset(p, 'c', 6); B[nb - 1].tag = 'c'; break; }
		case 3: { hx_log("strdup"); char* p = strdup(text); l = __LINE__; keep(p, 9, l, __func__, 0); HX_CHECK(!strcmp(p, text), "copy", "the copy is '%s'", p); break; }
		case 4: { hx_log("strndup"); char* p = strndup(text, 3); l = __LINE__; keep(p, 4, l, __func__, 0); HX_CHECK(!strcmp(p, "abc"), "copy", "the copy is '%s'", p); break; }
		case 5: { hx_log("realloc(NULL)"); char* p = realloc(NULL, 5); l = __LINE__; keep(p, 5, l, __func__, 'r'); B[nb - 1].atleast = true; memset(p, 'r', 5); break; }
		case 6: { hx_log("malloc(0)"); char* p = malloc(0); l = __LINE__; if (p) keep(p, 0, l, __func__, 0); break; }
		case 7: case 8:
		{
			int i = op == 7 ? 0 : nb - 1;
			hx_log("realloc of block %d", i);
			size_t n = B[i].n, m = n + 3000;
			char was[16], *q = B[i].p;
			if (n > 16) hx_prune();
			memcpy(was, q, n);
			char* p = realloc(q, m); l = __LINE__;
			HX_CHECK(p && !memcmp(p, was, n), "realloc", "the contents of a block of %zu changed when it grew", n);
			memset(p, 'R', m);
			B[i].p = p, B[i].n = m, B[i].tag = 'R', B[i].atleast = true, B[i].line = l, B[i].func = __func__;
			break;
		}
		case 9: hx_log("free the first"); drop(0); break;
		case 10: hx_log("free(NULL)"); free(NULL); break;
		}
		audit();
	}
	while (nb) { drop(nb - 1); audit(); }
	MEM_CHECK_DEINIT();
	hx_outcome(1);
}
static void sequences(void)
{
	begin();
	on = !hx_choose(2, "the check is not started");
	depth = hx_tier ? 5 : 4;
	cx_opt.one_schedule = true;
	cx_run(b_sequence, NULL);
	finish("the program");
}
/* ---- memory the library gives away is released with free() ---- */
static const char* const GIVEN[] = { "strreplace", "strreplace of nothing", "str_params_to_str", "str_params_to_str of nothing", "ini_parser_dump", "file_util_read_all", "lcu_malloc", "lcu_strdup" };
static char* given(int k, size_t* n)
{
	char* t = NULL;
	*n = 0;
	if (k == 0) t = strreplace("a b a", "a", "xyz"), *n = 9;
	if (k == 1) t = strreplace("a b", "q", "xyz"), *n = 3;
	if (k == 2 || k == 3)
	{
		str_params_ptr p = str_params_create_str(";", k == 2 ? "a=1;bb=22" : "");
		t = str_params_to_str(p), *n = k == 2 ? 9 : 0;
		str_params_destroy(p);
	}
	if (k == 4)
	{
		ini_parser_handle h = ini_parser_parse_str("[s]\nk=v\n");
		t = ini_parser_dump(h);
		if (t) *n = strlen(t);
		ini_parser_destroy(&h);
	}
	if (k == 5)
	{
		int r = 0;
		vfs_put("/f", "some text", 9);
		file_util_read_all("/f", &t, &r), *n = (size_t)r;
	}
	if (k == 6) t = lcu_malloc(4), *n = 4, memset(t, 'x', 4);
	if (k == 7) t = lcu_strdup("abc"), *n = 3;
	return t;
}
static int gk[2];
static void b_given(void* a)
{
	(void)a;
	if (on) MEM_CHECK_INIT();
	if (lcu_global_init()) hx_fail("init", "lcu_global_init");
	size_t n[2];
	char* t[2] = { given(gk[0], &n[0]), given(gk[1], &n[1]) };
	lcu_global_cleanup();
	for (int i = 2; i-- > 0;)
	{
		HX_CHECK(t[i], "given", "%s gives nothing", GIVEN[gk[i]]);
		size_t got = allocation_tracker_expect_no_allocations(NULL, NULL);
		size_t want = on ? n[0] + (i ? n[1] : 0) : 0;
		HX_CHECK(got >= want && got <= want + (on ? 4096 : 0), "given-sum", "%zu bytes are reported with %zu bytes of %s not released", got, want, GIVEN[gk[i]]);
		free(t[i]);
	}
	none("after the texts were released");
	MEM_CHECK_DEINIT();
}
static void gives(void)
{
	begin();
	gk[0] = hx_choose((int)(sizeof GIVEN / sizeof *GIVEN), "first"), gk[1] = hx_choose((int)(sizeof GIVEN / sizeof *GIVEN), "second");
	on = !hx_choose(2, "the check is not started");
	hx_log("%s, %s", GIVEN[gk[0]], GIVEN[gk[1]]);
	cx_opt.one_schedule = true;
	cx_run(b_given, NULL);
	finish("the program");
}
const hx_scn_t hx_scenarios[] = {
	{ "programs", all, 1, 2, "28 programs over the whole library with the check started and not: same results, nothing reported and nothing leaked once everything is released" },
	{ "pairs", pairs, 1, 2, "every program on two threads, or beside a str_params program, with the check started" },
	{ "sequences", sequences, 0, 0, "sequences of a program's own malloc, calloc, realloc, strdup, strndup and free: exactly the live blocks are reported, with size, file, function and line" },
	{ "given", gives, 0, 0, "every pair of texts the library gives away, released with free()" },
};
const int hx_n_scenarios = 4;
