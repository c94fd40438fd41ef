#define _GNU_SOURCE
#include "hx.h"
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define MAXC   16384            /* choices in one execution   */
#define MAXW   32
#define TABLE  (1u << 22)       /* state / outcome set slots  */
#define EXIT_VIOL 77
#define EXIT_DIE  78
#define EXIT_RESTART 79
#define CACHE  (1u << 26)       /* visited prefixes (shared by the workers) */
#define MAXKNOWN 64

typedef struct
{
	volatile uint32_t n;              /* choices made so far in the running execution */
	volatile uint16_t c[MAXC];
	volatile uint64_t execs, trans, evals, points, maxlen, pruned, known_hits;
	volatile uint64_t beat;
	volatile int capped, done;
	uint32_t sn;
	uint16_t sv[400];
	char key[128];
	char msg[2048];
} slot_t;

typedef struct
{
	slot_t w[MAXW];
	volatile uint64_t nstates, noutcomes;
	volatile uint64_t states[TABLE];
	volatile uint64_t outcomes[TABLE / 16];
	volatile int stop;
	volatile int known_seen[MAXKNOWN];
	char sample[3][2048];
} shm_t;

int hx_tier;
uint64_t hx_execs_total;
static shm_t* S;
static slot_t* W;
static int g_w, g_nw = 1;
static int g_bound;
static bool g_trace, g_replay;
static FILE* g_tracef;
static sigjmp_buf g_jb;
static uint16_t cur[MAXC], cn[MAXC];
static uint8_t ccost[MAXC];
static const char* cw[MAXC];
static uint16_t rec_n[MAXC];
static uint32_t ncur, nprefix;
static int g_spent;
static uint64_t g_ord;
static double g_deadline;
static char g_known[MAXKNOWN][256];
static int g_nknown;

static double now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

__attribute__((weak)) void hx_engine_init(void) {}
__attribute__((weak)) void hx_engine_begin(void) {}
__attribute__((weak)) void hx_engine_end(void) {}
__attribute__((weak)) void hx_engine_shared(void) {}
__attribute__((weak)) int hx_engine_version(void) { return 0; }
__attribute__((weak)) int hx_engine_cfg(char* out, int cap) { (void)cap; out[0] = 0; return 0; }
__attribute__((weak)) void hx_engine_cfg_set(const char* s) { (void)s; }
bool hx_restart_pending;
uint64_t hx_env_hash;
static volatile uint64_t* CT;
static volatile uint64_t* ct_used;

uint64_t hx_hash(uint64_t h, const void* p, size_t n)
{
	const unsigned char* s = p;
	while (n >= 8)
	{
		uint64_t v;
		memcpy(&v, s, 8);
		h = (h ^ v) * 0x9FB21C651E98DF25ULL;
		h ^= h >> 29;
		s += 8, n -= 8;
	}
	uint64_t v = 0;
	memcpy(&v, s, n);
	h = (h ^ v ^ ((uint64_t)n << 56)) * 0x9FB21C651E98DF25ULL;
	return h ^ (h >> 32);
}

static void set_add(volatile uint64_t* t, uint32_t cap, volatile uint64_t* cnt, uint64_t h)
{
	if (*cnt > cap / 2) return;
	if (!h) h = 1;
	uint32_t i = (uint32_t)(h ^ (h >> 32)) & (cap - 1);
	for (;;)
	{
		uint64_t v = t[i];
		if (v == h) return;
		if (!v)
		{
			uint64_t e = 0;
			if (__atomic_compare_exchange_n((uint64_t*)&t[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
			{
				__atomic_fetch_add((uint64_t*)cnt, 1, __ATOMIC_RELAXED);
				return;
			}
			if (e == h) return;
		}
		i = (i + 1) & (cap - 1);
	}
}

void hx_state(uint64_t h)   { set_add(S->states, TABLE, &S->nstates, h); }
void hx_outcome(uint64_t h) { set_add(S->outcomes, TABLE / 16, &S->noutcomes, h); }
void hx_trans(uint64_t n)   { W->trans += n; }
void hx_eval(uint64_t n)    { W->evals += n; }
bool hx_tracing(void)       { return g_trace; }
int  hx_devs_left(void)     { return g_bound - g_spent; }

void hx_log(const char* fmt, ...)
{
	if (!g_trace || !g_tracef) return;
	va_list ap;
	va_start(ap, fmt);
	vfprintf(g_tracef, fmt, ap);
	va_end(ap);
	fputc('\n', g_tracef);
	fflush(g_tracef);
}

void hx_die(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(W->msg, sizeof(W->msg), fmt, ap);
	va_end(ap);
	strcpy(W->key, "machinery");
	_exit(EXIT_DIE);
}

void hx_request_restart(void) { _exit(EXIT_RESTART); }

void hx_fail(const char* key, const char* fmt, ...)
{
	if (hx_restart_pending && !g_replay) hx_request_restart();
	char msg[2000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(msg, sizeof(msg), fmt, ap);
	va_end(ap);
	for (int i = 0; i < g_nknown; i++)
		if (!strcmp(g_known[i], key))
		{
			S->known_seen[i] = 1;
			W->known_hits++;
			hx_log("KNOWN %s: %s", key, msg);
			siglongjmp(g_jb, 2);
		}
	snprintf(W->key, sizeof(W->key), "%s", key);
	snprintf(W->msg, sizeof(W->msg), "%s", msg);
	hx_log("VIOLATED %s: %s", key, msg);
	_exit(EXIT_VIOL);
}

void hx_prune(void) { siglongjmp(g_jb, 3); }

static int choice(int n, const char* what, int cost)
{
	if (n <= 1) return 0;
	if (n > 65535) hx_die("choice '%s' has %d alternatives", what, n);
	if (ncur >= MAXC) hx_die("more than %d choices in one execution", MAXC);
	uint32_t i = ncur++;
	int v;
	if (i < nprefix)
	{
		v = cur[i];
		if (!g_replay && rec_n[i] != n)
			hx_die("divergence while replaying a prefix: choice %u '%s' had %u alternatives, now %d", i, what, rec_n[i], n);
		if (v >= n) hx_die("divergence: choice %u '%s' out of range (%d of %d)", i, what, v, n);
	}
	else
		v = 0;
	cur[i] = (uint16_t)v;
	cn[i] = (uint16_t)n;
	cw[i] = what;
	ccost[i] = (uint8_t)cost;
	W->c[i] = (uint16_t)v;
	W->n = i + 1;
	if (v) g_spent += cost;
	W->points++;
	if (g_trace) hx_log("  choice %u %s = %d of %d%s", i, what, v, n, v && cost ? "  (deviation)" : "");
	return v;
}

static int env_choice(int n, const char* what, int c)
{
	int v = choice(n, what, c);
	if (n > 1) hx_env_hash = hx_mix(hx_env_hash, (uint64_t)v * 65536 + (uint64_t)n);
	return v;
}
int hx_choose(int n, const char* what)  { return env_choice(n, what, 0); }
int hx_deviate(int n, const char* what) { return env_choice(n, what, 1); }
int hx_deviate_cost(int n, const char* what, int c) { return env_choice(n, what, c); }
/* who runs next: part of the schedule, not of the state reached */
int hx_sched_choice(int n, const char* what, int cost) { return choice(n, what, cost); }

#define SPLIT 2
/* true when everything below this point belongs to this worker and is explored for the first time */
bool hx_in_new_territory(void)
{
	if (g_replay || ncur < nprefix) return false;
	if (g_nw == 1) return true;
	int nz = 0;
	for (uint32_t i = 0; i < ncur; i++) if (cur[i] && ++nz >= SPLIT) return true;
	return false;
}
/* true: this prefix (or an equivalent one) is already being explored with at least that budget */
bool hx_cache_visit(uint64_t h, int left)
{
	if (left > 254) left = 254;
	uint64_t key = (h | (1ull << 63)) & ~0xffull, ent = key | (uint64_t)left;
	uint32_t i = (uint32_t)((h >> 8) * 0x9E3779B97F4A7C15ULL >> 34) & (CACHE - 1);
	for (;;)
	{
		uint64_t v = CT[i];
		if (!v)
		{
			if (*ct_used > CACHE / 4 * 3) return false;
			if (__atomic_compare_exchange_n((uint64_t*)&CT[i], &v, ent, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
			{
				__atomic_fetch_add((uint64_t*)ct_used, 1, __ATOMIC_RELAXED);
				return false;
			}
		}
		if ((v & ~0xffull) == key)
		{
			for (;;)
			{
				if ((int)(v & 0xff) >= left) return true;
				if (__atomic_compare_exchange_n((uint64_t*)&CT[i], &v, ent, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false;
			}
		}
		i = (i + 1) & (CACHE - 1);
	}
}

/* one execution; returns how it ended */
static int run_one(const hx_scn_t* sc)
{
	ncur = 0;
	g_spent = 0;
	hx_env_hash = 0;
	W->n = 0;
	W->beat++;
	int how = sigsetjmp(g_jb, 0);
	if (!how)
	{
		hx_engine_begin();
		sc->fn();
		hx_engine_end();
	}
	hx_execs_total++;
	if (hx_restart_pending && !g_replay) hx_request_restart();
	if (how == 3) W->pruned++;
	if (ncur > W->maxlen) W->maxlen = ncur;
	return how;
}

/* advance the odometer; false when the tree is exhausted */
static bool advance(uint32_t len)
{
	/* prefix sums are recomputed: executions are short */
	static int cost_before[MAXC + 1], nz_before[MAXC + 1];
	cost_before[0] = nz_before[0] = 0;
	for (uint32_t i = 0; i < len; i++)
	{
		cost_before[i + 1] = cost_before[i] + (cur[i] ? ccost[i] : 0);
		nz_before[i + 1] = nz_before[i] + (cur[i] != 0);
	}
	for (int64_t i = (int64_t)len - 1; i >= 0; i--)
	{
		while (cur[i] + 1 < cn[i])
		{
			if (cost_before[i] + ccost[i] > g_bound) break;
			cur[i]++;
			if (nz_before[i] + 1 == SPLIT)
				if ((int)(g_ord++ % (uint64_t)g_nw) != g_w) continue;
			nprefix = (uint32_t)i + 1;
			memcpy(rec_n, cn, nprefix * sizeof(rec_n[0]));
			return true;
		}
		cur[i] = 0;
	}
	return false;
}

static void worker(const hx_scn_t* sc)
{
	nprefix = 0;
	g_ord = 0;
	for (;;)
	{
		int how = run_one(sc);
		uint32_t len = ncur;
		int nz = 0;
		for (uint32_t i = 0; i < len && nz < SPLIT; i++) nz += cur[i] != 0;
		if (nz >= SPLIT || g_w == 0) W->execs++;
		if (how == 0 && (hx_execs_total & (hx_execs_total - 1)) == 0 && len <= 400)
		{
			W->sn = len;
			for (uint32_t i = 0; i < len; i++) W->sv[i] = cur[i];
		}
		if (!advance(len)) break;
		if (S->stop) { W->capped = 1; break; }
		if ((hx_execs_total & 63) == 0 && now() > g_deadline) { W->capped = 1; break; }
	}
	W->done = 1;
}

/* ---- parent ---------------------------------------------------------- */
static char g_errdir[256];

static void child_setup(int w, const char* tag)
{
	char p[400];
	snprintf(p, sizeof(p), "%s/err.%s.%d", g_errdir, tag, w);
	int fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { dup2(fd, 2); close(fd); }
	fd = open("/dev/null", O_WRONLY);
	if (fd >= 0) { dup2(fd, 1); close(fd); }
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
}

static void json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; s++)
	{
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static void last_lines(const char* path, char* out, size_t cap)
{
	out[0] = 0;
	FILE* f = fopen(path, "r");
	if (!f) return;
	char line[600];
	size_t n = 0;
	bool on = false;
	while (fgets(line, sizeof(line), f))
	{
		if (strstr(line, "ERROR: AddressSanitizer") || strstr(line, "runtime error") || strstr(line, "Assertion") || strstr(line, "#")) on = true;
		if (!on) continue;
		size_t l = strlen(line);
		if (n + l + 1 >= cap) break;
		memcpy(out + n, line, l + 1);
		n += l;
		if (strstr(line, " in main ")) break;
	}
	fclose(f);
}

typedef struct { int kind; /* 0 ok 1 violation 2 hang 3 die */ char key[128]; char msg[6000]; } verdict_t;

static void verdict_of(int st, int w, const char* tag, slot_t* sl, verdict_t* v)
{
	memset(v, 0, sizeof(*v));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
	if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_DIE)
	{
		v->kind = 3;
		strcpy(v->key, "machinery");
		snprintf(v->msg, sizeof(v->msg), "%s", sl->msg);
		return;
	}
	v->kind = 1;
	if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_VIOL)
	{
		strcpy(v->key, sl->key);
		snprintf(v->msg, sizeof(v->msg), "%s", sl->msg);
		return;
	}
	char p[400], tail[4000];
	snprintf(p, sizeof(p), "%s/err.%s.%d", g_errdir, tag, w);
	last_lines(p, tail, sizeof(tail));
	if (WIFSIGNALED(st))
	{
		if (WTERMSIG(st) == SIGKILL)
		{ /* not something the code under test did */
			v->kind = 3;
			strcpy(v->key, "machinery");
			snprintf(v->msg, sizeof(v->msg), "worker was killed (out of memory?)");
			return;
		}
		snprintf(v->key, sizeof(v->key), "crash-signal-%d", WTERMSIG(st));
	}
	else if (strstr(tail, "AddressSanitizer: "))
	{
		char what[60] = "";
		sscanf(strstr(tail, "AddressSanitizer: ") + 18, "%59s", what);
		snprintf(v->key, sizeof(v->key), "memory-%s", what);
	}
	else if (strstr(tail, "Assertion")) strcpy(v->key, "assertion");
	else snprintf(v->key, sizeof(v->key), "exit-%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
	snprintf(v->msg, sizeof(v->msg), "the code under test terminated the process (status 0x%x)\n%s", st, tail);
}

/* run exactly one vector in a fresh process */
static void replay_vec(const hx_scn_t* sc, const uint16_t* vec, uint32_t n, int bound, const char* tracefile, double limit, verdict_t* v)
{
	slot_t* sl = &S->w[MAXW - 1];
	memset((void*)sl, 0, sizeof(*sl));
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0)
	{
		child_setup(MAXW - 1, "replay");
		W = sl;
		g_bound = bound;
		g_replay = true;
		if (tracefile) { g_tracef = fopen(tracefile, "w"); g_trace = g_tracef != NULL; }
		memcpy(cur, vec, n * sizeof(cur[0]));
		nprefix = n;
		hx_engine_init();
		run_one(sc);
		_exit(0);
	}
	double end = now() + limit;
	int st;
	for (;;)
	{
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (now() > end)
		{
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			memset(v, 0, sizeof(*v));
			v->kind = 2;
			strcpy(v->key, "hang");
			snprintf(v->msg, sizeof(v->msg), "one execution, alone, did not finish within %.0f s", limit);
			return;
		}
		usleep(2000);
	}
	verdict_of(st, MAXW - 1, "replay", sl, v);
}

static void put_cfg(FILE* f)
{
	static char b[16384];
	if (hx_engine_cfg(b, sizeof b) > 0) fprintf(f, "@%s", b);
}

int main(int argc, char** argv)
{
	const char* out = NULL;
	const char* tracefile = NULL;
	const char* replay = NULL;
	const char* only = NULL;
	double budget = 600, hang = 20;
	int fbound = -100;
	bool list = false;
	g_nw = 8;
	snprintf(g_errdir, sizeof(g_errdir), "/tmp");
	for (int i = 1; i < argc; i++)
	{
		if (!strcmp(argv[i], "--tier") && i + 1 < argc) hx_tier = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--out") && i + 1 < argc) out = argv[++i];
		else if (!strcmp(argv[i], "--workers") && i + 1 < argc) g_nw = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--budget") && i + 1 < argc) budget = atof(argv[++i]);
		else if (!strcmp(argv[i], "--hang") && i + 1 < argc) hang = atof(argv[++i]);
		else if (!strcmp(argv[i], "--errdir") && i + 1 < argc) snprintf(g_errdir, sizeof(g_errdir), "%s", argv[++i]);
		else if (!strcmp(argv[i], "--trace") && i + 1 < argc) tracefile = argv[++i];
		else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i]; /* "scn:b:c,c,c" */
		else if (!strcmp(argv[i], "--only") && i + 1 < argc) only = argv[++i];
		else if (!strcmp(argv[i], "--bound") && i + 1 < argc) fbound = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--list")) list = true;
		else if (!strcmp(argv[i], "--known") && i + 1 < argc && g_nknown < MAXKNOWN)
			snprintf(g_known[g_nknown++], sizeof(g_known[0]), "%s", argv[++i]);
	}
	if (g_nw > MAXW - 1) g_nw = MAXW - 1;
	if (list)
	{
		for (int i = 0; i < hx_n_scenarios; i++)
			printf("%s quick=%d thorough=%d: %s\n", hx_scenarios[i].name, hx_scenarios[i].quick, hx_scenarios[i].thorough, hx_scenarios[i].desc);
		return 0;
	}
	S = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED) { perror("mmap"); return 2; }
	W = &S->w[0];
	CT = mmap(NULL, sizeof(uint64_t) * (CACHE + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (CT == MAP_FAILED) { perror("mmap"); return 2; }
	ct_used = CT + CACHE;
	hx_engine_shared();

	if (replay)
	{
		char name[128];
		int b;
		int off;
		if (sscanf(replay, "%127[^:]:%d:%n", name, &b, &off) != 2) return 2;
		static uint16_t vec[MAXC];
		uint32_t n = 0;
		if (strchr(replay, '@')) hx_engine_cfg_set(strchr(replay, '@') + 1);
		for (const char* p = replay + off; *p && *p != '@';)
		{
			vec[n++] = (uint16_t)strtol(p, (char**)&p, 10);
			if (*p == ',') p++;
		}
		for (int i = 0; i < hx_n_scenarios; i++)
			if (!strcmp(hx_scenarios[i].name, name))
			{
				verdict_t v;
				replay_vec(&hx_scenarios[i], vec, n, b, tracefile ? tracefile : "/dev/stderr", 120, &v);
				printf("%s %s\n%s\n", v.kind ? "VIOLATED" : "held", v.key, v.msg);
				return v.kind == 0 ? 0 : v.kind == 3 ? 2 : 1;
			}
		return 2;
	}

	FILE* f = out ? fopen(out, "w") : stdout;
	if (!f) return 2;
	double t_end = now() + budget;
	int rc = 0;
	fprintf(f, "{\"scenarios\":[");
	bool first = true;
	for (int si = 0; si < hx_n_scenarios && !rc; si++)
	{
		const hx_scn_t* sc = &hx_scenarios[si];
		int bound = hx_tier ? sc->thorough : sc->quick;
		if (only && strcmp(only, sc->name)) continue;
		if (fbound >= 0) bound = fbound;
		if (bound < 0) continue;
		/* iterate the deviation bound so that the first counterexample has the fewest deviations */
		for (int b = 0; b <= bound && !rc; b++)
		{
			double t0 = now();
			int attempts = 0;
		again:
			attempts++;
			for (int i = 0; i < MAXW; i++) memset((void*)&S->w[i], 0, sizeof(slot_t));
			memset((void*)S->states, 0, sizeof(S->states));
			memset((void*)S->outcomes, 0, sizeof(S->outcomes));
			S->nstates = S->noutcomes = 0;
			S->stop = 0;
			if (*ct_used) madvise((void*)CT, sizeof(uint64_t) * (CACHE + 1), MADV_REMOVE);
			*ct_used = 0;
			int version = hx_engine_version();
			bool restart = false;
			pid_t pid[MAXW];
			uint64_t beat[MAXW];
			double tb[MAXW];
			fflush(NULL);
			for (int w = 0; w < g_nw; w++)
			{
				beat[w] = 0;
				tb[w] = now();
				if ((pid[w] = fork()) == 0)
				{
					child_setup(w, "w");
					g_w = w;
					W = &S->w[w];
					g_bound = b;
					g_deadline = t_end;
					hx_engine_init();
					worker(sc);
					_exit(0);
				}
			}
			int live = g_nw, bad = -1;
			int bst = 0;
			bool hung = false;
			while (live)
			{
				int st;
				pid_t r = waitpid(-1, &st, WNOHANG);
				if (r > 0)
				{
					for (int w = 0; w < g_nw; w++)
						if (pid[w] == r)
						{
							pid[w] = 0;
							live--;
							if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_RESTART) { restart = true; S->stop = 1; }
							else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0)
							{
								bad = w;
								bst = st;
								S->stop = 1;
								tb[w] = now();
							}
						}
					continue;
				}
				for (int w = 0; w < g_nw; w++)
				{
					if (!pid[w]) continue;
					if (S->w[w].beat != beat[w] || S->w[w].done) { beat[w] = S->w[w].beat; tb[w] = now(); }
					else if (now() - tb[w] > hang * attempts)
					{
						kill(pid[w], SIGKILL);
						waitpid(pid[w], &st, 0);
						pid[w] = 0;
						live--;
						if (bad < 0) { bad = w; hung = true; }
						S->stop = 1;
					}
				}
				usleep(1000);
			}
			if (restart || (bad >= 0 && hx_engine_version() != version)) { attempts--; goto again; }
			if (bad >= 0)
			{
				/* Replay before report, twice, in fresh processes. */
				static uint16_t vec[MAXC];
				static verdict_t v0, v1, v2;
				uint32_t n = S->w[bad].n;
				for (uint32_t i = 0; i < n; i++) vec[i] = S->w[bad].c[i];
				if (!hung) verdict_of(bst, bad, "w", &S->w[bad], &v0);
				else { memset(&v0, 0, sizeof v0); v0.kind = 2; strcpy(v0.key, "hang"); }
				double lim = hung ? 60 : 120;
				replay_vec(sc, vec, n, b, tracefile, lim, &v1);
				if (hung && v1.kind == 0 && attempts < 3) goto again;
				replay_vec(sc, vec, n, b, NULL, lim, &v2);
				bool same = v1.kind == v2.kind && !strcmp(v1.key, v2.key);
				rc = (v1.kind == 1 || v1.kind == 2) && same ? 1 : 2;
				if (v0.kind == 3) rc = 2;
				if (!first) fputc(',', f);
				first = false;
				fprintf(f, "{\"name\":");
				json_str(f, sc->name);
				fprintf(f, ",\"bound\":%d,\"verdict\":%d,\"reproduced\":%s,\"key\":", b, rc, same ? "true" : "false");
				json_str(f, rc == 1 ? v1.key : v0.key);
				fprintf(f, ",\"message\":");
				json_str(f, rc == 1 ? v1.msg : v0.msg);
				fprintf(f, ",\"replay_message\":");
				json_str(f, v1.msg);
				fprintf(f, ",\"vector\":\"%s:%d:", sc->name, b);
				for (uint32_t i = 0; i < n; i++) fprintf(f, "%s%u", i ? "," : "", vec[i]);
				put_cfg(f);
				fprintf(f, "\",\"wall_s\":%.3f}", now() - t0);
				break;
			}
			uint64_t execs = 0, trans = 0, evals = 0, points = 0, maxlen = 0, pruned = 0, kh = 0;
			int capped = 0;
			for (int w = 0; w < g_nw; w++)
			{
				execs += S->w[w].execs, trans += S->w[w].trans, evals += S->w[w].evals, points += S->w[w].points;
				pruned += S->w[w].pruned, kh += S->w[w].known_hits;
				if (S->w[w].maxlen > maxlen) maxlen = S->w[w].maxlen;
				capped |= S->w[w].capped;
			}
			if (b == bound || capped)
			{
				if (!first) fputc(',', f);
				first = false;
				fprintf(f, "{\"name\":");
				json_str(f, sc->name);
				fprintf(f, ",\"desc\":");
				json_str(f, sc->desc ? sc->desc : "");
				fprintf(f, ",\"bound\":%d,\"verdict\":0,\"executions\":%lu,\"states\":%lu,\"transitions\":%lu,\"comparisons\":%lu,"
					"\"choice_points\":%lu,\"longest\":%lu,\"outcomes\":%lu,\"pruned\":%lu,\"known_hits\":%lu,\"capped\":%s,\"wall_s\":%.3f,\"samples\":[",
					b, execs, (uint64_t)S->nstates, trans, evals, points, maxlen, (uint64_t)S->noutcomes, pruned, kh, capped ? "true" : "false", now() - t0);
				for (int w = 0, k = 0; w < g_nw && k < 2; w += g_nw > 1 ? g_nw - 1 : 1, k++)
				{
					slot_t* s = &S->w[w];
					fprintf(f, "%s\"%s:%d:", k ? "," : "", sc->name, b);
					for (uint32_t i = 0; i < s->sn; i++) fprintf(f, "%s%u", i ? "," : "", s->sv[i]);
					put_cfg(f);
					fprintf(f, "\"");
				}
				fprintf(f, "]}");
				if (capped) break;
			}
		}
	}
	fprintf(f, "],\"known_seen\":[");
	first = true;
	for (int i = 0; i < g_nknown; i++)
		if (S->known_seen[i])
		{
			if (!first) fputc(',', f);
			first = false;
			json_str(f, g_known[i]);
		}
	fprintf(f, "],\"rc\":%d}\n", rc);
	if (f != stdout) fclose(f);
	return rc;
}
