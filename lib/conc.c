#define _GNU_SOURCE
#include "cx.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <dlfcn.h>

#define NT       10
#define STK      (192 * 1024)
#define ARENA    (24u << 20)
#define REGION   (ARENA + NT * STK)
#define NSYNC    512
#define NPROMO   512
#define STARVE   80

extern uint64_t hx_env_hash;              /* core: non-scheduling choices so far */
int hx_sched_choice(int n, const char* what, int cost);
bool hx_in_new_territory(void);
extern bool hx_restart_pending;
bool hx_cache_visit(uint64_t h, int left); /* true: already explored with at least that budget */

cx_opt_t cx_opt;

/* ---------------------------------------------------------------- fibers */
typedef struct sync_s sync_t;
typedef struct
{
	bool (*pred)(void*);
	void* parg;
	const char* what;
	int64_t deadline;
	bool sleeping, condwait, signalled;
	sync_t* waiting_on;
} wait_t;
typedef struct
{
	int id;
	bool used, done, detached, joined, started;
	size_t stacksize;
	void* sp;
	char* stk;
	void* (*fn)(void*);
	void* arg;
	void* ret;
	bool (*pred)(void*);
	void* parg;
	const char* what;
	int64_t deadline;        /* -1: none */
	bool timed_out, sleeping, condwait, signalled, spur, interrupted;
	sync_t* waiting_on;
	uint32_t vc[NT];
	uint64_t h;
	int quiet, run;          /* steps without effect / in a row: spinning threads must let others run */
	bool yield;
	int err;
	int sigpend[8], nsig;
	bool in_sig;
	wait_t* outer;           /* the wait a signal handler interrupted */
	void* tsd[16];
	char name[32];
	uint64_t nsteps;
	bool dirty;              /* did something others can see without the lock it holds */
} fib_t;

static fib_t F[NT];
static int nf, curf;
static fib_t* C;                 /* current */
static void* main_sp;
static char* region;             /* arena, then stacks */
static uint8_t* shadow;          /* arena: 0 never, 1 live, 2 freed, 3 redzone */
static uint32_t brk_;
static int64_t vclock;
static int steps;
static uint32_t epoch;
static bool running_;

extern char __start_hxdata[] __attribute__((weak)), __stop_hxdata[] __attribute__((weak));
extern char __start_hxbss[] __attribute__((weak)), __stop_hxbss[] __attribute__((weak));
static char *snap_d, *snap_b;

void cx_swap(void** save, void* to);
__asm__(
	".text\n.globl cx_swap\ncx_swap:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

/* --------------------------------------------------- memory access cells */
typedef struct
{
	uint32_t epoch;
	uint32_t wclk;
	int wtid;
	void* wpc;
	uint32_t rclk[NT];
	void* rpc[NT];
	uint64_t wh, rsum;
} cell_t;
static cell_t* cells;            /* region / 8, then globals / 8 */
static size_t ng_d, ng_b;

typedef struct { void* volatile pc[NPROMO]; volatile int n; } promo_t;
static promo_t* P;               /* shared between workers */
static uint8_t promo_bits[8192];

static bool promoted(void* pc)
{
	uint32_t b = (uint32_t)((uintptr_t)pc * 2654435761u >> 13) & 65535;
	if (!(promo_bits[b >> 3] & (1 << (b & 7)))) return false;
	for (int i = 0; i < P->n; i++) if (P->pc[i] == pc) return true;
	return false;
}
static void promo_sync(void)
{
	memset(promo_bits, 0, sizeof promo_bits);
	for (int i = 0; i < P->n; i++)
	{
		uint32_t b = (uint32_t)((uintptr_t)P->pc[i] * 2654435761u >> 13) & 65535;
		promo_bits[b >> 3] |= (uint8_t)(1 << (b & 7));
	}
}
static bool promo_add(void* pc)
{
	if (!pc) return false;
	for (int i = 0; i < P->n; i++) if (P->pc[i] == pc) return false;
	int k = __atomic_fetch_add(&P->n, 1, __ATOMIC_SEQ_CST);
	if (k >= NPROMO) hx_die("too many racy code locations");
	P->pc[k] = pc;
	return true;
}
/* exported to core for replay files */
int hx_engine_cfg(char* out, int cap)
{
	int n = 0;
	out[0] = 0;
	for (int i = 0; i < P->n; i++) n += snprintf(out + n, (size_t)(cap - n), "%s%lx", i ? "." : "", (unsigned long)P->pc[i]);
	return n;
}
void hx_engine_cfg_set(const char* s)
{
	P->n = 0;
	while (*s && *s != ':')
	{
		char* e;
		P->pc[P->n++] = (void*)strtoul(s, &e, 16);
		if (e == s) break;
		s = e;
		if (*s == '.') s++;
	}
}
int hx_engine_version(void) { return P->n; }
void hx_engine_shared(void)
{
	P = mmap(NULL, sizeof *P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static cell_t* cell_of(uintptr_t a)
{
	cell_t* c;
	if (a - (uintptr_t)region < REGION) c = &cells[(a - (uintptr_t)region) >> 3];
	else if (a - (uintptr_t)__start_hxdata < ng_d) c = &cells[REGION / 8 + 8 + ((a - (uintptr_t)__start_hxdata) >> 3)];
	else if (a - (uintptr_t)__start_hxbss < ng_b) c = &cells[REGION / 8 + 16 + ng_d / 8 + ((a - (uintptr_t)__start_hxbss) >> 3)];
	else return NULL;
	if (c->epoch != epoch)
	{
		memset(c, 0, sizeof *c);
		c->epoch = epoch;
		c->wtid = -1;
	}
	return c;
}

static const char* sym(void* pc)
{
	static char b[4][64];
	static int k;
	char* s = b[k++ & 3];
	snprintf(s, 64, "%p", pc);
	return s;
}

static void race_check(uintptr_t a, size_t n, bool wr, void* pc)
{
	if (n > 65536) n = 65536;
	bool grew = false;
	for (uintptr_t g = a & ~7ul; g < a + n; g += 8)
	{
		cell_t* c = cell_of(g);
		if (!c) return;
		int t = C->id;
		if (c->wtid >= 0 && c->wtid != t && c->wclk > C->vc[c->wtid])
		{
			grew |= promo_add(pc);
			grew |= promo_add(c->wpc);
		}
		if (wr)
			for (int i = 0; i < nf; i++)
				if (i != t && c->rclk[i] > C->vc[i])
				{
					grew |= promo_add(pc);
					grew |= promo_add(c->rpc[i]);
				}
		if (wr) { c->wtid = t; c->wclk = C->vc[t]; c->wpc = pc; }
		else { c->rclk[t] = C->vc[t]; c->rpc[t] = pc; }
	}
	if (grew)
	{
		hx_log("unsynchronised access found at %s: becomes a scheduling point", sym(pc));
		hx_restart_pending = true;
	}
}

static void die_mem(const char* key, uintptr_t a, size_t n, bool wr, void* pc)
{
	hx_fail(key, "thread %d %s %zu byte(s) at heap offset %lu (code %p)", C ? C->id : -1, wr ? "writes" : "reads", n, (unsigned long)(a - (uintptr_t)region), pc);
}

static void mem_check(uintptr_t a, size_t n, bool wr, void* pc)
{
	uintptr_t o = a - (uintptr_t)region;
	if (o < ARENA)
	{
		for (size_t i = 0; i < n; i++)
		{
			uint8_t s = o + i < ARENA ? shadow[o + i] : 0;
			if (s == 1) continue;
			die_mem(s == 2 ? "use-after-free" : "heap-overflow", a, n, wr, pc);
		}
	}
	else if (a < 65536) hx_fail("null-dereference", "thread %d %s address %#lx (code %p)", C ? C->id : -1, wr ? "writes" : "reads", (unsigned long)a, pc);
}

static void schedule(bool can_continue);

static uint64_t mixh(uint64_t a, uint64_t b) { return hx_mix(a, b); }
/* happens-before bookkeeping for the prefix hash */
static void hb_read(uint64_t* wh, uint64_t* rsum, uint64_t op)
{
	C->h = mixh(mixh(C->h, op), *wh);
	*rsum += C->h * 0x9E3779B97F4A7C15ULL;
}
static void hb_write(uint64_t* wh, uint64_t* rsum, uint64_t op)
{
	C->h = mixh(mixh(mixh(C->h, op), *wh), *rsum);
	*wh = C->h;
	*rsum = 0;
}

static inline void access_(void* p, size_t n, bool wr, void* pc)
{
	if (!running_ || !n) return;
	uintptr_t a = (uintptr_t)p;
	uintptr_t o = a - (uintptr_t)region;
	bool shared_ = o < REGION || a - (uintptr_t)__start_hxdata < ng_d || a - (uintptr_t)__start_hxbss < ng_b;
	if (!shared_) { if (a < 65536) mem_check(a, n, wr, pc); return; }
	if (promoted(pc))
	{
		C->what = wr ? "racy write" : "racy read";
		C->dirty = true;
		if (!wr) C->quiet++; else C->quiet = 0;
		schedule(true);
		cell_t* c = cell_of(a);
		if (c) { if (wr) hb_write(&c->wh, &c->rsum, (uint64_t)(uintptr_t)pc); else hb_read(&c->wh, &c->rsum, (uint64_t)(uintptr_t)pc); }
	}
	if (o < ARENA) mem_check(a, n, wr, pc);
	race_check(a, n, wr, pc);
}

#define RA __builtin_return_address(0)
#define TS(n) \
	void __tsan_read##n(void* p) { access_(p, n, false, RA); } \
	void __tsan_write##n(void* p) { access_(p, n, true, RA); } \
	void __tsan_unaligned_read##n(void* p) { access_(p, n, false, RA); } \
	void __tsan_unaligned_write##n(void* p) { access_(p, n, true, RA); } \
	void __tsan_volatile_read##n(void* p) { access_(p, n, false, RA); } \
	void __tsan_volatile_write##n(void* p) { access_(p, n, true, RA); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access_(p, n, false, RA); } \
	void __tsan_unaligned_volatile_write##n(void* p) { access_(p, n, true, RA); } \
	void __tsan_read_write##n(void* p) { access_(p, n, false, RA); access_(p, n, true, RA); } \
	void __tsan_unaligned_read_write##n(void* p) { access_(p, n, false, RA); access_(p, n, true, RA); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void* p, size_t n) { access_(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access_(p, n, true, RA); }
void __tsan_vptr_update(void** p, void* v) { (void)v; access_(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access_(p, 8, false, RA); }
void __tsan_func_entry(void* pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}

/* ---------------------------------------------------------------- sync objects */
struct sync_s
{
	void* addr;
	int kind;               /* 'm' mutex 'c' cond 'r' rwlock 's' sem 'b' barrier 'o' once 'a' atomic 'e' event 't' clock */
	bool live;
	int owner, count, type; /* mutex */
	int readers, writer;    /* rwlock */
	int rheld[NT];
	unsigned value;         /* sem */
	uint32_t vc[NT], rvc[NT];
	uint64_t wh, rsum;
};
static sync_t SY[NSYNC];
static int nsy;

static sync_t* sy_find(void* a, int kind)
{
	for (int i = nsy - 1; i >= 0; i--) if (SY[i].addr == a && SY[i].kind == kind && SY[i].live) return &SY[i];
	return NULL;
}
static sync_t* sy_new(void* a, int kind)
{
	for (int i = 0; i < nsy; i++)
		if (SY[i].addr == a && SY[i].live && SY[i].kind == kind)
		{ /* re-initialised in place */
			uint64_t wh = SY[i].wh;
			memset(&SY[i], 0, sizeof SY[i]);
			SY[i].addr = a, SY[i].kind = kind, SY[i].live = true, SY[i].owner = -1, SY[i].writer = -1, SY[i].wh = wh;
			return &SY[i];
		}
	if (nsy >= NSYNC) hx_die("too many synchronisation objects");
	sync_t* s = &SY[nsy++];
	memset(s, 0, sizeof *s);
	s->addr = a, s->kind = kind, s->live = true, s->owner = -1, s->writer = -1;
	return s;
}
/* objects with static initialisers are adopted on first use; destroyed or freed ones are misuse */
static sync_t* sy_use(void* a, int kind, const char* op, void* pc)
{
	mem_check((uintptr_t)a, kind == 's' ? sizeof(sem_t) : 8, false, pc);
	sync_t* s = sy_find(a, kind);
	if (s) return s;
	for (int i = 0; i < nsy; i++)
		if (SY[i].addr == a && SY[i].kind == kind && !SY[i].live)
			hx_fail("use-after-destroy", "%s on a destroyed synchronisation object", op);
	uintptr_t o = (uintptr_t)a - (uintptr_t)region;
	if (kind == 's' || (o < ARENA && *(unsigned char*)a == 0xA5)) hx_fail("use-before-init", "%s on a synchronisation object that was never initialised", op);
	return sy_new(a, kind);
}
static void sy_kill(sync_t* s) { s->live = false; }
int cx_sync_left(void)
{
	int n = 0;
	for (int i = 0; i < nsy; i++) if (SY[i].live && strchr("mcrs", SY[i].kind)) n++;
	return n;
}

static void vc_join(uint32_t* d, const uint32_t* s) { for (int i = 0; i < NT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void acq(sync_t* s) { vc_join(C->vc, s->vc); }
static void rel(sync_t* s) { vc_join(s->vc, C->vc); C->vc[C->id]++; }
static void hbw(sync_t* s, uint64_t op) { hb_write(&s->wh, &s->rsum, op); C->quiet = 0; }

/* ---------------------------------------------------------------- scheduler */
static bool f_enabled(fib_t* f)
{
	if (!f->used || f->done) return false;
	if (f->nsig && !f->in_sig) return true;
	if (f->condwait && f->signalled) return true;
	if (f->pred) return f->pred(f->parg);
	return !f->condwait && !f->sleeping;
}

static void deliver(void)
{
	if (C->in_sig) return;
	extern void (*cx_sighandler[65])(int);
	while (C->nsig)
	{
		int sg = C->sigpend[0];
		memmove(C->sigpend, C->sigpend + 1, sizeof(int) * 7);
		C->nsig--;
		if (!cx_sighandler[sg]) hx_fail("killed-by-signal", "thread %d receives signal %d and no handler is installed", C->id, sg);
		{
			C->in_sig = true;
			cx_sighandler[sg](sg);
			C->in_sig = false;
		}
	}
}

static void fiber_entry(void)
{
	fib_t* me = C;
	me->started = true;
	void* r = me->fn(me->arg);
	void cx_pthread_exit(void*) __attribute__((noreturn));
	cx_pthread_exit(r);
}

/* thread-local variables of the library: the fibers share one system thread, so each has its copy */
static char* tls;
static char* tls_init;
static char* tls_of[NT];
static size_t ntls;
static int find_tls(struct dl_phdr_info* i, size_t n, void* u)
{
	(void)n, (void)u;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS) tls = i->dlpi_tls_data, ntls = i->dlpi_phdr[k].p_memsz;
	return 1; /* only the program itself */
}
static void tls_switch(fib_t* from, fib_t* to)
{
	if (!ntls) return;
	if (from) memcpy(tls_of[from - F], tls, ntls);
	memcpy(tls, tls_of[to - F], ntls);
}

static void switch_to(fib_t* t)
{
	if (t == C) return;
	fib_t* old = C;
	if (old) old->err = errno;
	tls_switch(old, t);
	C = t;
	curf = t->id;
	errno = t->err;
	hx_log("-> thread %d%s%s (%s)", t->id, t->name[0] ? " " : "", t->name, t->what ? t->what : "");
	cx_swap(old ? &old->sp : &main_sp, t->sp);
}

/* a thread that sits in a signal handler while it owns a lock: told apart from other hangs */
static const char* hang_key(const char* key);
static void deadlock(void)
{
	char b[1500];
	int n = 0;
	for (int i = 0; i < nf; i++)
		if (!F[i].done) n += snprintf(b + n, sizeof b - (size_t)n, "\n  thread %d blocked in %s", i, F[i].what ? F[i].what : "?");
	hx_fail(hang_key("deadlock"), "no thread can ever run again:%s", b);
}

static bool draining;

/* pick who runs next.  can_continue: the current thread's next step may run now. */
#define MAXOWN 4096
static uint64_t own[MAXOWN];           /* states visited first by this execution */
static int nown;
static void schedule(bool can_continue)
{
	if (!running_) return;
again:
	if (++steps > cx_opt.horizon)
	{
		char b[1500];
		int n = 0;
		for (int i = 0; i < nf; i++)
			if (!F[i].done) n += snprintf(b + n, sizeof b - (size_t)n, "\n  thread %d at %s", i, F[i].what ? F[i].what : "?");
		hx_fail(hang_key("livelock"), "no end after %d scheduling steps:%s", cx_opt.horizon, b);
	}
	hx_trans(1);
	if (C) C->nsteps++;
	int cand[NT * 3], kind[NT * 3], n = 0; /* kind 0 normal, 1 timeout/early wake, 2 spurious, 3 EINTR */
	bool self = C && !C->done && can_continue && f_enabled(C);
	bool yielding = self && (C->quiet > 12 || ++C->run > STARVE);
	int nen = 0;
	if (self && !yielding) cand[n] = C->id, kind[n++] = 0;
	/* round-robin from the current thread: a fair default */
	int base = C ? C->id : 0;
	for (int d = 1; d <= nf; d++)
	{
		int i = (base + d) % nf;
		if (C && i == C->id && self) continue;
		if (f_enabled(&F[i])) cand[n] = i, kind[n++] = 0, nen++;
	}
	if (self && yielding) cand[n] = C->id, kind[n++] = 0;
	int nfree = n;
	if (n)
	{
		for (int i = 0; i < nf; i++)
		{
			fib_t* f = &F[i];
			if (!f->used || f->done || f_enabled(f)) continue;
			if (f->deadline >= 0) cand[n] = i, kind[n++] = 1;
			else if (f->condwait && cx_opt.spurious) cand[n] = i, kind[n++] = 2;
			else if (f->waiting_on && f->waiting_on->kind == 's' && cx_opt.eintr && !f->interrupted) cand[n] = i, kind[n++] = 3;
		}
	}
	else
	{ /* nobody can run now: let virtual time pass to the earliest deadline */
		int64_t best = -1;
		for (int i = 0; i < nf; i++)
			if (F[i].used && !F[i].done && F[i].deadline >= 0 && (best < 0 || F[i].deadline < best)) best = F[i].deadline;
		if (best < 0)
		{
			if (draining) { void* dummy; fib_t* o = C; if (o) { o->err = errno; if (ntls) memcpy(tls_of[o - F], tls, ntls); } C = NULL; cx_swap(o ? &o->sp : &dummy, main_sp); return; }
			deadlock();
		}
		if (best > vclock) vclock = best;
		for (int d = 1; d <= nf; d++)
		{
			int i = (base + d) % nf;
			if (F[i].used && !F[i].done && F[i].deadline >= 0 && F[i].deadline <= vclock) cand[n] = i, kind[n++] = 1;
		}
		nfree = n;
	}
	/* prefix merging: equal happens-before prefixes lead to equal states */
	uint64_t hs = hx_env_hash;
	for (int i = 0; i < nf; i++) hs += mixh(F[i].h + (uint64_t)(i + 1) * 0x1234567, (uint64_t)F[i].done * 2 + (uint64_t)f_enabled(&F[i])) * (uint64_t)(2 * i + 3);
	hs = mixh(hs, (uint64_t)(vclock + 1));
	hx_state(hs);
	if (!cx_opt.no_prune && hx_in_new_territory())
	{
		uint64_t k = mixh(hs, (uint64_t)(base * 4 + self * 2 + yielding));
		for (int i = 0; i < nf; i++) k = mixh(k, (uint64_t)F[i].quiet);
		if (hx_cache_visit(k, hx_devs_left()))
		{ /* merging an execution with itself would silently drop its continuation */
			for (int i = 0; i < nown; i++) if (own[i] == k) hx_die("a state repeats within one execution (thread at %s)", C && C->what ? C->what : "?");
			hx_prune();
		}
		if (nown < MAXOWN) own[nown++] = k;
	}
	int pick = 0;
	if (n > 1 && !cx_opt.one_schedule)
	{
		if (self && !yielding) pick = hx_sched_choice(hx_devs_left() > 0 ? n : 1, "schedule", 1);
		else if (cx_opt.costly_switch) pick = hx_sched_choice(hx_devs_left() > 0 ? n : 1, "schedule", 1);
		else if (yielding)
		{ /* others are free, staying (or early wakes) costs */
			int m = hx_devs_left() > 0 ? n : nen;
			pick = nen > 1 || m > nen ? 0 : 0;
			if (m > nen)
			{
				if (hx_sched_choice(2, "stay in spin / early wake", 1)) pick = nen + hx_sched_choice(n - nen, "schedule", 0);
				else pick = hx_sched_choice(nen ? nen : 1, "schedule", 0);
			}
			else pick = hx_sched_choice(nen ? nen : 1, "schedule", 0);
			if (!nen) pick = 0;
		}
		else
		{
			if (n > nfree && hx_devs_left() > 0)
			{
				if (hx_sched_choice(2, "early wake", 1)) pick = nfree + hx_sched_choice(n - nfree, "schedule", 0);
				else pick = hx_sched_choice(nfree, "schedule", 0);
			}
			else pick = hx_sched_choice(nfree, "schedule", 0);
		}
	}
	fib_t* t = &F[cand[pick]];
	if (yielding && nen) C->quiet = C->run = 0;
	if (t != C) t->run = 0;
	if (t != C) t->quiet = t->quiet > 12 ? 0 : t->quiet;
	switch (kind[pick])
	{
	case 1:
		if (t->deadline > vclock) vclock = t->deadline;
		t->timed_out = true;
		t->sleeping = false;
		t->deadline = -1;
		t->pred = NULL;
		t->condwait = false;
		break;
	case 2:
		t->spur = true;
		t->condwait = false;
		t->pred = NULL;
		break;
	case 3:
		t->interrupted = true;
		t->pred = NULL;
		break;
	}
	if (t != C) switch_to(t);
	if (C->done) goto again; /* cannot happen: a finished thread is never resumed */
	if (C->nsig && !C->in_sig)
	{
		/* a handler runs, then the interrupted wait goes on (a sleep ends) */
		wait_t w = { C->pred, C->parg, C->what, C->deadline, C->sleeping, C->condwait, C->signalled, C->waiting_on };
		C->pred = NULL, C->deadline = -1, C->sleeping = C->condwait = C->signalled = false, C->waiting_on = NULL;
		C->outer = &w;
		deliver();
		C->outer = NULL;
		C->pred = w.pred, C->parg = w.parg, C->what = w.what, C->deadline = w.deadline, C->condwait = w.condwait, C->signalled = w.signalled;
		C->waiting_on = w.waiting_on;
		if (w.sleeping) { C->deadline = -1; return; }
		if (w.condwait && !C->signalled) { can_continue = false; goto again; }
		if (C->pred && !C->pred(C->parg)) { can_continue = false; goto again; }
	}
}

static const char* hang_key(const char* key)
{
	for (int i = 0; i < nsy; i++)
		if (SY[i].live && SY[i].kind == 'm' && SY[i].owner >= 0 && F[SY[i].owner].in_sig)
			for (int j = 0; j < nf; j++)
				if (F[j].waiting_on == &SY[i] && !F[j].in_sig) return "paused-while-holding-lock";
	return key;
}
static void point(const char* what)
{
	if (!running_) return;
	C->what = what;
	C->dirty = true;
	schedule(true);
	C->h = mixh(C->h, 0x51); /* having passed a point is progress: two points in a row are two states */
}
/* wait until pred holds, then go on (the scheduler only resumes us when it does) */
static void wait_until(bool (*pred)(void*), void* arg, const char* what)
{
	C->what = what;
	C->pred = pred;
	C->parg = arg;
	schedule(true);
	C->pred = NULL;
}

static sync_t* ev_obj(void)
{
	static char key;
	sync_t* s = sy_find(&key, 'e');
	return s ? s : sy_new(&key, 'e');
}
static sync_t* clk_obj(void)
{
	static char key;
	sync_t* s = sy_find(&key, 't');
	return s ? s : sy_new(&key, 't');
}

static uint64_t evhash;          /* what was observed, in order: this execution's outcome */
void hx_engine_end(void) { if (evhash) hx_outcome(evhash); }
void cx_event(const char* what, long a, long b)
{
	if (!running_) return;
	point(what);
	evhash = hx_mix(evhash, hx_hash((uint64_t)a * 31 + (uint64_t)b + ((uint64_t)C->id << 40), what, strlen(what)));
	hbw(ev_obj(), hx_hash((uint64_t)a * 31 + (uint64_t)b, what, strlen(what)));
	hx_log("   thread %d: %s %ld %ld", C->id, what, a, b);
}
void cx_point(const char* what) { point(what); }
void cx_until(bool (*pred)(void*), void* arg, const char* what)
{
	wait_until(pred, arg, what);
	hbw(ev_obj(), 77);
}
int cx_self(void) { return C ? C->id : -1; }
bool cx_blocked(int t) { return t < nf && !F[t].done && F[t].started && !f_enabled(&F[t]); }
int cx_nthreads(void) { return nf; }
const char* cx_where(int t) { return F[t].what; }
int64_t cx_now_us(void) { return vclock; }
void cx_set_now_us(int64_t t) { vclock = t; }

/* ---------------------------------------------------------------- heap */
typedef struct { uint32_t off, n; bool live; int ord; } hb_t;
#define NHB 200000
static hb_t HB[NHB];
static int nhb, hlive, al_at, al_fired, al_asked, cr_at, cr_fired, cr_asked;
static bool al_sticky;

void cx_fail_alloc(int k, bool st) { al_at = k, al_sticky = st, al_fired = 0, al_asked = 0; }
int cx_alloc_fired(void) { return al_fired; }
void cx_fail_create(int k) { cr_at = k, cr_fired = 0, cr_asked = 0; }
int cx_create_fired(void) { return cr_fired; }
int cx_live(void) { return hlive; }

static hb_t* hb_of(void* p)
{
	uintptr_t o = (uintptr_t)p - (uintptr_t)region;
	if (o < 16 || o >= ARENA) return NULL;
	uint32_t i;
	memcpy(&i, region + o - 16, sizeof i);         /* kept in the red zone before the block */
	return i < (uint32_t)nhb && HB[i].off == o ? &HB[i] : NULL;
}
void* cx_malloc(size_t n)
{
	al_asked++;
	if (al_at && (al_asked == al_at || (al_sticky && al_asked > al_at))) { al_fired++; errno = ENOMEM; return NULL; }
	size_t r = (n + 15) & ~(size_t)15;
	if (!r) r = 16;
	if (n > ARENA || brk_ + r + 32 > ARENA) { errno = ENOMEM; if (n <= 65536) hx_fail(hang_key("endless-allocation"), "memory is allocated without end: %d allocations, %u bytes", nhb, brk_); return NULL; }
	if (nhb >= NHB) hx_fail(hang_key("endless-allocation"), "memory is allocated without end: %d allocations, %u bytes", nhb, brk_);
	uint32_t o = brk_ + 16;
	brk_ += (uint32_t)r + 32;
	memset(region + o, 0xA5, n);
	memset(shadow + o, 1, n);
	uint32_t ix = (uint32_t)nhb;
	memcpy(region + o - 16, &ix, sizeof ix);
	HB[nhb++] = (hb_t){ o, (uint32_t)n, true, nhb };
	hlive++;
	return region + o;
}
void* cx_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	void* p = cx_malloc(n);
	if (p) memset(p, 0, n);
	return p;
}
void cx_free(void* p)
{
	if (!p) return;
	void* pc = RA;
	hb_t* b = hb_of(p);
	if (!b) hx_fail("bad-free", "free of a pointer that is not an allocated block");
	if (!b->live) hx_fail("double-free", "thread %d frees a block of %u bytes again", C ? C->id : -1, b->n);
	if (running_)
	{
		if (promoted(pc))
		{
			C->quiet = 0;
			point("free");
			cell_t* c = cell_of((uintptr_t)p);
			if (c) hb_write(&c->wh, &c->rsum, 5);
			if (!b->live) hx_fail("double-free", "thread %d frees a block of %u bytes again", C->id, b->n);
		}
		race_check((uintptr_t)p, b->n, true, pc);
	}
	for (int i = 0; i < nsy; i++)
		if (SY[i].live && (uintptr_t)SY[i].addr - (uintptr_t)p < b->n)
		{
			for (int t = 0; t < nf; t++)
				if (F[t].used && !F[t].done && F[t].waiting_on == &SY[i])
					hx_fail("free-in-use", "memory of a synchronisation object is freed while thread %d waits on it", t);
			SY[i].live = false;
			SY[i].addr = NULL;
		}
		else if ((uintptr_t)SY[i].addr - (uintptr_t)p < b->n) SY[i].addr = NULL;
	b->live = false;
	hlive--;
	memset(shadow + b->off, 2, b->n);
}
void* cx_realloc(void* p, size_t n)
{
	if (!p) return cx_malloc(n);
	hb_t* b = hb_of(p);
	if (!b || !b->live) hx_fail("bad-free", "realloc of a pointer that is not an allocated block");
	void* q = cx_malloc(n);
	if (!q) return NULL;
	memcpy(q, p, b->n < n ? b->n : n);
	cx_free(p);
	return q;
}
char* cx_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	access_((void*)s, n, false, RA);
	char* p = cx_malloc(n);
	return p ? memcpy(p, s, n) : NULL;
}
char* cx_strndup(const char* s, size_t m)
{
	size_t n = strnlen(s, m);
	access_((void*)s, n, false, RA);
	char* p = cx_malloc(n + 1);
	if (!p) return NULL;
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
void cx_check_leaks(const char* key)
{
	hx_eval(1);
	for (int i = 1; i < nf; i++)
		if (F[i].done && !F[i].joined && !F[i].detached) hx_fail(key, "thread %d has ended and is neither joined nor detached: its stack is never released", i);
	if (!hlive) return;
	for (int i = 0; i < nhb; i++)
		if (HB[i].live) hx_fail(key, "%d block(s) allocated by the library are never released; e.g. allocation #%d of %u bytes", hlive, HB[i].ord, HB[i].n);
}
void cx_check_access(const void* p, size_t n, const char* what) { (void)what; if (n) { mem_check((uintptr_t)p, n, false, RA); } }

/* ---------------------------------------------------------------- memory functions */
static void halves(void* d, const void* s, size_t n, void* pc)
{
	if (running_ && n > 8 && promoted(pc))
	{
		size_t k = (n / 2) & ~(size_t)7;
		if (!k) k = n / 2;
		access_((void*)s, k, false, pc);
		access_(d, k, true, pc);
		memmove(d, s, k);
		access_((char*)s + k, n - k, false, pc);
		access_((char*)d + k, n - k, true, pc);
		memmove((char*)d + k, (const char*)s + k, n - k);
		return;
	}
	access_((void*)s, n, false, pc);
	access_(d, n, true, pc);
	memmove(d, s, n);
}
void* cx_memcpy(void* d, const void* s, size_t n) { halves(d, s, n, RA); return d; }
void* cx_memmove(void* d, const void* s, size_t n)
{
	access_((void*)s, n, false, RA);
	access_(d, n, true, RA);
	return memmove(d, s, n);
}
void* cx_memset(void* d, int c, size_t n) { access_(d, n, true, RA); return memset(d, c, n); }
int cx_memcmp(const void* a, const void* b, size_t n) { access_((void*)a, n, false, RA); access_((void*)b, n, false, RA); return memcmp(a, b, n); }
size_t cx_strlen(const char* s) { size_t n = strlen(s); access_((void*)s, n + 1, false, RA); return n; }
char* cx_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access_((void*)s, n, false, RA); access_(d, n, true, RA); return memcpy(d, s, n); }
char* cx_strncpy(char* d, const char* s, size_t n) { access_((void*)s, strnlen(s, n), false, RA); access_(d, n, true, RA); return strncpy(d, s, n); }
char* cx_strcat(char* d, const char* s) { size_t n = strlen(s) + 1; access_(d + strlen(d), n, true, RA); return strcat(d, s); }
int cx_strcmp(const char* a, const char* b)
{
	size_t n = strlen(a), m = strlen(b);
	access_((void*)a, n + 1, false, RA);
	access_((void*)b, m + 1, false, RA);
	return strcmp(a, b);
}
int cx_strncmp(const char* a, const char* b, size_t k)
{
	access_((void*)a, strnlen(a, k), false, RA);
	access_((void*)b, strnlen(b, k), false, RA);
	return strncmp(a, b, k);
}

/* ---------------------------------------------------------------- atomics */
#define AT(n, T) \
	static sync_t* at_##n(volatile T* p, bool wr, void* pc) { \
		mem_check((uintptr_t)p, n / 8, wr, pc); \
		if (!running_) return NULL; \
		if (wr) C->quiet = 0; else C->quiet++; \
		point(wr ? "atomic write" : "atomic read"); \
		mem_check((uintptr_t)p, n / 8, wr, pc); \
		sync_t* s = sy_find((void*)p, 'a'); if (!s) s = sy_new((void*)p, 'a'); \
		if (wr) hb_write(&s->wh, &s->rsum, (uint64_t)(uintptr_t)pc); else hb_read(&s->wh, &s->rsum, (uint64_t)(uintptr_t)pc); \
		cell_t* c = cell_of((uintptr_t)p); /* plain accesses to the same memory are ordered with this one, too */ \
		if (c) { if (wr) hb_write(&c->wh, &c->rsum, (uint64_t)(uintptr_t)pc); else hb_read(&c->wh, &c->rsum, (uint64_t)(uintptr_t)pc); } \
		vc_join(C->vc, s->vc); race_check((uintptr_t)p, n / 8, wr, pc); if (wr) { vc_join(s->vc, C->vc); C->vc[C->id]++; } return s; } \
	T __tsan_atomic##n##_load(const volatile T* p, int mo) { (void)mo; at_##n((volatile T*)p, false, RA); return *p; } \
	void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); *p = v; } \
	T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = v; return o; } \
	T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = (T)(o & v); return o; } \
	T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = (T)(o | v); return o; } \
	T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = (T)(o ^ v); return o; } \
	T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int mo) { (void)mo; at_##n(p, true, RA); T o = *p; *p = (T)~(o & v); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int a, int b) { (void)a; (void)b; at_##n(p, true, RA); \
		if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { (void)a; (void)b; at_##n(p, true, RA); \
		if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int a, int b) { (void)a; (void)b; at_##n(p, true, RA); \
		T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- pthreads */
static int new_fiber(void* (*fn)(void*), void* arg)
{
	if (nf >= NT) hx_die("more than %d threads", NT);
	fib_t* f = &F[nf];
	char* stk = f->stk;
	memset(f, 0, sizeof *f);
	f->stk = stk;
	f->id = nf;
	f->used = true;
	f->fn = fn;
	f->arg = arg;
	f->deadline = -1;
	f->what = "start";
	uintptr_t top = (uintptr_t)stk + STK;
	void** sp = (void**)(top & ~15ul);
	*--sp = 0;
	*--sp = (void*)fiber_entry;
	for (int i = 0; i < 6; i++) *--sp = 0;
	f->sp = sp;
	f->vc[f->id] = 1;
	nf++;
	return f->id;
}

int cx_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	point("pthread_create");
	cr_asked++;
	if (cr_at && cr_asked == cr_at) { cr_fired++; hx_log("   thread %d: pthread_create fails", C->id); C->h = mixh(C->h, 9); return EAGAIN; }
	int id = new_fiber(fn, arg);
	fib_t* f = &F[id];
	int ds = PTHREAD_CREATE_JOINABLE;
	f->stacksize = 0;
	if (a) pthread_attr_getdetachstate(a, &ds), pthread_attr_getstacksize(a, &f->stacksize);
	f->detached = ds == PTHREAD_CREATE_DETACHED;
	vc_join(f->vc, C->vc);
	C->vc[C->id]++;
	C->h = mixh(C->h, 11);
	f->h = mixh(C->h, 12);
	access_(t, sizeof *t, true, RA);
	*t = (pthread_t)(0x1000 + id);
	return 0;
}
static fib_t* fib_of(pthread_t t) { unsigned long i = (unsigned long)t - 0x1000; return i < (unsigned long)nf ? &F[i] : NULL; }
void cx_pthread_exit(void* r)
{
	C->what = "exit";
	C->ret = r;
	C->done = true;
	C->h = mixh(C->h, 13);
	C->quiet = 0;
	if (C->id == 0) draining = true;
	/* leave for good */
	bool any = false;
	for (int i = 0; i < nf; i++) any |= !F[i].done;
	if (!any)
	{
		void* dummy;
		C = NULL;
		cx_swap(&dummy, main_sp);
	}
	schedule(false);
	hx_die("a finished thread was resumed");
}
static bool p_done(void* a) { return ((fib_t*)a)->done; }
int cx_pthread_join(pthread_t t, void** r)
{
	fib_t* f = fib_of(t);
	if (!f) hx_fail("bad-join", "join of a thread that was never created");
	if (f == C) return EDEADLK;
	if (f->detached || f->joined) hx_fail("bad-join", "join of a thread that is %s", f->detached ? "detached" : "already joined");
	wait_until(p_done, f, "pthread_join");
	f->joined = true;
	vc_join(C->vc, f->vc);
	C->h = mixh(C->h, f->h);
	C->quiet = 0;
	if (r) *r = f->ret;
	return 0;
}
int cx_pthread_detach(pthread_t t)
{
	fib_t* f = fib_of(t);
	if (!f) return ESRCH;
	if (f->joined) hx_fail("bad-detach", "detach of a joined thread");
	if (f->detached) return EINVAL;
	f->detached = true;
	return 0;
}
pthread_t cx_pthread_self(void) { return (pthread_t)(0x1000 + (C ? C->id : 0)); }
int cx_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int cx_pthread_setname_np(pthread_t t, const char* n) { fib_t* f = fib_of(t); if (!f) return ESRCH; if (strlen(n) > 15) return ERANGE; snprintf(f->name, 16, "%s", n); return 0; }
int cx_pthread_getname_np(pthread_t t, char* b, size_t n) { fib_t* f = fib_of(t); if (!f) return ESRCH; snprintf(b, n, "%s", f->name); return 0; }
int cx_pthread_cancel(pthread_t t) { (void)t; hx_die("pthread_cancel is not modelled"); }

/* initialisations of locks may be made to fail */
static int in_at, in_asked, in_fired_;
void cx_fail_init(int k) { in_at = k, in_asked = in_fired_ = 0; }
int cx_init_fired(void) { return in_fired_; }
static bool init_fails(void) { if (in_at && ++in_asked == in_at) { in_fired_++; return true; } return false; }
size_t cx_stacksize(int id) { return F[id].stacksize; }
const char* cx_name(int id) { return F[id].name; }

/* mutex */
static bool p_mfree(void* a) { sync_t* s = a; return s->owner < 0 || !s->live; }
int cx_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	if (init_fails()) return ENOMEM;
	mem_check((uintptr_t)m, sizeof *m, true, RA);
	sync_t* s = sy_new(m, 'm');
	memset(m, 0, sizeof *m);
	int ty = PTHREAD_MUTEX_NORMAL;
	if (a) pthread_mutexattr_gettype(a, &ty);
	s->type = ty;
	return 0;
}
int cx_mutex_destroy(pthread_mutex_t* m)
{
	sync_t* s = sy_use(m, 'm', "pthread_mutex_destroy", RA);
	if (s->owner >= 0) hx_fail("destroy-locked", "a locked mutex is destroyed");
	sy_kill(s);
	return 0;
}
static sync_t* m_stat(pthread_mutex_t* m, const char* op, void* pc)
{
	sync_t* s = sy_find(m, 'm');
	if (s) { mem_check((uintptr_t)m, sizeof *m, false, pc); return s; }
	s = sy_use(m, 'm', op, pc);
	s->type = m->__data.__kind & 3; /* statically initialised recursive/errorcheck mutexes */
	return s;
}
static int m_lock(pthread_mutex_t* m, void* pc, int64_t deadline)
{
	sync_t* s = m_stat(m, "pthread_mutex_lock", pc);
	if (s->owner == C->id)
	{
		if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	C->waiting_on = s;
	C->deadline = deadline;
	C->timed_out = false;
	wait_until(p_mfree, s, "pthread_mutex_lock");
	C->waiting_on = NULL;
	C->deadline = -1;
	if (C->timed_out) { C->timed_out = false; C->h = mixh(C->h, 21); return ETIMEDOUT; }
	mem_check((uintptr_t)m, sizeof *m, false, pc);
	if (!s->live) hx_fail("use-after-destroy", "a mutex is destroyed while a thread is about to lock it");
	s->owner = C->id;
	s->count = 1;
	acq(s);
	hbw(s, 20);
	return 0;
}
int cx_mutex_lock(pthread_mutex_t* m) { return running_ ? m_lock(m, RA, -1) : 0; }
int cx_mutex_trylock(pthread_mutex_t* m)
{
	if (!running_) return 0;
	point("pthread_mutex_trylock");
	sync_t* s = m_stat(m, "pthread_mutex_trylock", RA);
	hbw(s, 22);
	if (s->owner >= 0)
	{
		if (s->owner == C->id && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
		C->quiet = 5;
		return EBUSY;
	}
	s->owner = C->id;
	s->count = 1;
	acq(s);
	return 0;
}
int cx_mutex_unlock(pthread_mutex_t* m)
{
	if (!running_) return 0;
	sync_t* s = m_stat(m, "pthread_mutex_unlock", RA);
	if (s->owner != C->id)
	{
		if (s->type == PTHREAD_MUTEX_ERRORCHECK || s->type == PTHREAD_MUTEX_RECURSIVE) return EPERM;
		hx_fail("bad-unlock", "thread %d unlocks a mutex %s", C->id, s->owner < 0 ? "nobody holds" : "held by another thread");
	}
	if (s->count > 1) { s->count--; return 0; }
	if (C->dirty)
	{
		point("pthread_mutex_unlock");
		C->dirty = false;
		mem_check((uintptr_t)m, sizeof *m, false, RA);
		if (!s->live) hx_fail("use-after-destroy", "a mutex is destroyed or freed while thread %d is about to unlock it", C->id);
	}
	s->count = 0;
	rel(s);
	hbw(s, 23);
	s->owner = -1;
	return 0;
}
static int64_t abs_us(const struct timespec* ts) { return (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000; }
int cx_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return m_lock(m, RA, abs_us(ts)); }

/* condition variables */
int cx_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
	if (init_fails()) return ENOMEM;
	(void)a;
	mem_check((uintptr_t)c, sizeof *c, true, RA);
	sy_new(c, 'c');
	memset(c, 0, sizeof *c);
	return 0;
}
int cx_cond_destroy(pthread_cond_t* c)
{
	sync_t* s = sy_use(c, 'c', "pthread_cond_destroy", RA);
	for (int i = 0; i < nf; i++)
		if (F[i].used && !F[i].done && F[i].condwait && F[i].waiting_on == s) hx_fail("destroy-busy", "a condition variable is destroyed while thread %d waits on it", i);
	sy_kill(s);
	return 0;
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, void* pc)
{
	sync_t* s = sy_use(c, 'c', "pthread_cond_wait", pc);
	sync_t* ms = m_stat(m, "pthread_cond_wait", pc);
	if (ms->owner != C->id) hx_fail("bad-wait", "condition wait without holding the mutex");
	point("pthread_cond_wait");
	int cnt = ms->count;
	rel(ms);
	hbw(ms, 30);
	hbw(s, 31);
	ms->owner = -1;
	C->condwait = true;
	C->signalled = C->spur = C->timed_out = false;
	C->waiting_on = s;
	C->deadline = deadline;
	C->pred = NULL;
	C->what = "pthread_cond_wait";
	schedule(false);
	bool to = C->timed_out && !C->signalled;
	C->condwait = false;
	C->deadline = -1;
	C->waiting_on = ms;
	C->timed_out = false;
	if (C->signalled) vc_join(C->vc, s->vc);
	hbw(s, to ? 32 : C->signalled ? 33 : 34);
	wait_until(p_mfree, ms, "pthread_cond_wait (re-lock)");
	C->waiting_on = NULL;
	mem_check((uintptr_t)m, sizeof *m, false, pc);
	if (!ms->live) hx_fail("use-after-destroy", "the mutex of a condition wait was destroyed");
	ms->owner = C->id;
	ms->count = cnt;
	acq(ms);
	hbw(ms, 20);
	return to ? ETIMEDOUT : 0;
}
int cx_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, -1, RA); }
int cx_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return c_wait(c, m, abs_us(ts), RA); }
static int c_wake(pthread_cond_t* c, bool all, void* pc)
{
	point(all ? "pthread_cond_broadcast" : "pthread_cond_signal");
	sync_t* s = sy_use(c, 'c', "pthread_cond_signal", pc);
	vc_join(s->vc, C->vc);
	C->vc[C->id]++;
	hbw(s, 35);
	int w[NT], n = 0;
	for (int i = 0; i < nf; i++)
		if (F[i].used && !F[i].done && F[i].condwait && !F[i].signalled && F[i].waiting_on == s) w[n++] = i;
	for (int i = 0; i < nf; i++)
		if (F[i].used && !F[i].done && F[i].outer && F[i].outer->condwait && !F[i].outer->signalled && F[i].outer->waiting_on == s) w[n++] = i;
	if (!n) return 0;
	int k = all || cx_opt.one_schedule ? 0 : hx_choose(n, "which waiter is signalled");
	for (int i = all ? 0 : k; i < (all ? n : k + 1); i++)
	{
		fib_t* f = &F[w[i]];
		if (f->outer) f->outer->signalled = true, f->outer->deadline = -1;
		else f->signalled = true, f->deadline = -1;
	}
	return 0;
}
int cx_cond_signal(pthread_cond_t* c) { return running_ ? c_wake(c, false, RA) : 0; }
int cx_cond_broadcast(pthread_cond_t* c) { return running_ ? c_wake(c, true, RA) : 0; }

/* rwlock */
int cx_rw_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a)
{
	if (init_fails()) return ENOMEM;
	(void)a;
	mem_check((uintptr_t)l, sizeof *l, true, RA);
	sy_new(l, 'r');
	memset(l, 0, sizeof *l);
	return 0;
}
int cx_rw_destroy(pthread_rwlock_t* l)
{
	sync_t* s = sy_use(l, 'r', "pthread_rwlock_destroy", RA);
	if (s->writer >= 0 || s->readers) hx_fail("destroy-locked", "a held read-write lock is destroyed");
	sy_kill(s);
	return 0;
}
static bool p_rd(void* a) { sync_t* s = a; return s->writer < 0; }
static bool p_wr(void* a) { sync_t* s = a; return s->writer < 0 && !s->readers; }
int cx_rw_rdlock(pthread_rwlock_t* l)
{
	if (!running_) return 0;
	sync_t* s = sy_use(l, 'r', "pthread_rwlock_rdlock", RA);
	if (s->writer == C->id) return EDEADLK;
	C->waiting_on = s;
	wait_until(p_rd, s, "pthread_rwlock_rdlock");
	C->waiting_on = NULL;
	mem_check((uintptr_t)l, sizeof *l, false, RA);
	s->readers++;
	s->rheld[C->id]++;
	acq(s);
	hbw(s, 40);
	return 0;
}
int cx_rw_wrlock(pthread_rwlock_t* l)
{
	if (!running_) return 0;
	sync_t* s = sy_use(l, 'r', "pthread_rwlock_wrlock", RA);
	if (s->writer == C->id) return EDEADLK;
	C->waiting_on = s;
	wait_until(p_wr, s, "pthread_rwlock_wrlock");
	C->waiting_on = NULL;
	mem_check((uintptr_t)l, sizeof *l, false, RA);
	s->writer = C->id;
	acq(s);
	vc_join(C->vc, s->rvc);
	hbw(s, 41);
	return 0;
}
int cx_rw_tryrdlock(pthread_rwlock_t* l)
{
	point("pthread_rwlock_tryrdlock");
	sync_t* s = sy_use(l, 'r', "pthread_rwlock_tryrdlock", RA);
	hbw(s, 42);
	if (!p_rd(s)) return EBUSY;
	s->readers++;
	s->rheld[C->id]++;
	acq(s);
	return 0;
}
int cx_rw_trywrlock(pthread_rwlock_t* l)
{
	point("pthread_rwlock_trywrlock");
	sync_t* s = sy_use(l, 'r', "pthread_rwlock_trywrlock", RA);
	hbw(s, 43);
	if (!p_wr(s)) return EBUSY;
	s->writer = C->id;
	acq(s);
	vc_join(C->vc, s->rvc);
	return 0;
}
int cx_rw_unlock(pthread_rwlock_t* l)
{
	if (!running_) return 0;
	sync_t* s = sy_use(l, 'r', "pthread_rwlock_unlock", RA);
	if (s->writer == C->id) { s->writer = -1; rel(s); }
	else if (s->rheld[C->id]) { s->rheld[C->id]--; s->readers--; vc_join(s->rvc, C->vc); C->vc[C->id]++; }   /* readers do not order one another */
	else hx_fail("bad-unlock", "thread %d unlocks a read-write lock it does not hold", C->id);
	hbw(s, 44);
	return 0;
}

/* semaphores */
static bool p_sem(void* a) { return ((sync_t*)a)->value > 0; }
int cx_sem_init(sem_t* m, int sh, unsigned v)
{
	if (init_fails()) { errno = ENOSPC; return -1; }
	(void)sh;
	mem_check((uintptr_t)m, sizeof *m, true, RA);
	sync_t* s = sy_new(m, 's');
	s->value = v;
	return 0;
}
int cx_sem_destroy(sem_t* m)
{
	sync_t* s = sy_use(m, 's', "sem_destroy", RA);
	for (int i = 0; i < nf; i++)
		if (F[i].used && !F[i].done && F[i].waiting_on == s) hx_fail("destroy-busy", "a semaphore is destroyed while thread %d waits on it", i);
	sy_kill(s);
	return 0;
}
static int s_wait(sem_t* m, int64_t deadline, void* pc)
{
	sync_t* s = sy_use(m, 's', "sem_wait", pc);
	C->waiting_on = s;
	C->deadline = deadline;
	C->timed_out = C->interrupted = false;
	wait_until(p_sem, s, "sem_wait");
	C->waiting_on = NULL;
	C->deadline = -1;
	if (C->interrupted) { C->interrupted = false; C->h = mixh(C->h, 52); errno = EINTR; return -1; }
	mem_check((uintptr_t)m, sizeof *m, false, pc);
	if (C->timed_out) { C->timed_out = false; C->h = mixh(C->h, 51); errno = ETIMEDOUT; return -1; }
	s->value--;
	acq(s);
	hbw(s, 50);
	return 0;
}
int cx_sem_wait(sem_t* m) { return s_wait(m, -1, RA); }
int cx_sem_timedwait(sem_t* m, const struct timespec* ts) { return s_wait(m, abs_us(ts), RA); }
int cx_sem_trywait(sem_t* m)
{
	point("sem_trywait");
	sync_t* s = sy_use(m, 's', "sem_trywait", RA);
	hbw(s, 53);
	if (!s->value) { C->quiet = 5; errno = EAGAIN; return -1; }
	s->value--;
	acq(s);
	return 0;
}
int cx_sem_post(sem_t* m)
{
	if (running_) point("sem_post");
	sync_t* s = sy_use(m, 's', "sem_post", RA);
	s->value++;
	if (running_) { rel(s); hbw(s, 54); }
	return 0;
}
int cx_sem_getvalue(sem_t* m, int* v)
{
	point("sem_getvalue");
	sync_t* s = sy_use(m, 's', "sem_getvalue", RA);
	hbw(s, 55);
	*v = (int)s->value;
	return 0;
}

/* once, keys, spin */
int cx_once(pthread_once_t* o, void (*fn)(void))
{
	sync_t* s = sy_find(o, 'o');
	if (!s) s = sy_new(o, 'o'), s->owner = -1;
	C->waiting_on = s;
	wait_until(p_mfree, s, "pthread_once");
	C->waiting_on = NULL;
	hbw(s, 60);
	if (!s->value)
	{
		s->owner = C->id;
		fn();
		s->value = 1;
		s->owner = -1;
		rel(s);
	}
	else acq(s);
	return 0;
}
static int nkeys;
int cx_key_create(pthread_key_t* k, void (*d)(void*)) { (void)d; if (nkeys >= 16) return EAGAIN; *k = (pthread_key_t)nkeys++; return 0; }
int cx_key_delete(pthread_key_t k) { (void)k; return 0; }
void* cx_getspecific(pthread_key_t k) { return k < 16 ? C->tsd[k] : NULL; }
int cx_setspecific(pthread_key_t k, const void* v) { if (k >= 16) return EINVAL; C->tsd[k] = (void*)v; return 0; }

/* signals */
void (*cx_sighandler[65])(int);
static void sig_ignored(int sg) { (void)sg; }
int cx_sigaction(int sg, const struct sigaction* a, struct sigaction* o)
{
	if (o) memset(o, 0, sizeof *o), o->sa_handler = cx_sighandler[sg];
	if (a) cx_sighandler[sg] = a->sa_handler == SIG_DFL ? NULL : a->sa_handler == SIG_IGN ? sig_ignored : a->sa_handler;
	return 0;
}
int cx_pthread_kill(pthread_t t, int sg)
{
	point("pthread_kill");
	fib_t* f = fib_of(t);
	if (!f || f->done) return ESRCH;
	if (sg && f->nsig < 8) { f->sigpend[f->nsig++] = sg; hbw(ev_obj(), 70); }
	return 0;
}

/* time */
static int64_t clock_read(void)
{
	if (!running_) return vclock;
	C->quiet++;
	point("clock");
	vclock += cx_opt.time_step_us;
	sync_t* s = clk_obj();
	if (cx_opt.time_step_us) hb_write(&s->wh, &s->rsum, 80); else hb_read(&s->wh, &s->rsum, 80);
	return vclock;
}
time_t cx_time(time_t* t) { time_t v = (time_t)(clock_read() / 1000000); if (t) *t = v; return v; }
int cx_gettimeofday(struct timeval* tv, void* z) { (void)z; int64_t v = clock_read(); tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
int cx_clock_gettime(clockid_t c, struct timespec* ts) { (void)c; int64_t v = clock_read(); ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000; return 0; }
static void sleep_us(int64_t us)
{
	if (!running_) return;
	C->sleeping = true;
	C->deadline = vclock + us;
	C->timed_out = false;
	C->what = "sleep";
	C->quiet = 0;
	C->pred = NULL;
	/* a sleeping thread is only chosen through its deadline */
	schedule(false);
	C->sleeping = false;
	C->deadline = -1;
	C->timed_out = false;
	sync_t* s = clk_obj();
	hb_write(&s->wh, &s->rsum, 81);
}
int cx_usleep(unsigned us) { sleep_us(us); return 0; }
unsigned cx_sleep(unsigned s) { sleep_us((int64_t)s * 1000000); return 0; }
int cx_nanosleep(const struct timespec* a, struct timespec* b) { (void)b; sleep_us(abs_us(a)); return 0; }
int cx_clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { (void)c; (void)b; int64_t t = abs_us(a); sleep_us(fl & TIMER_ABSTIME ? (t > vclock ? t - vclock : 0) : t); return 0; }
int cx_sched_yield(void) { if (running_) { C->quiet = 13; point("sched_yield"); } return 0; }
pid_t cx_gettid(void) { return 4000 + (C ? C->id : 0); }
long cx_syscall(long n, ...)
{
	if (n == SYS_gettid) return cx_gettid();
	hx_die("system call %ld is not modelled", n);
}
int cx_prctl(int op, ...)
{
	va_list ap;
	va_start(ap, op);
	if (op == 15 /* PR_SET_NAME */ && C) snprintf(C->name, 16, "%s", va_arg(ap, char*));
	va_end(ap);
	return 0;
}

/* for cx_libc.c, whose own calls are redirected */
void* hx_raw_alloc(size_t n) { return malloc(n); }
void hx_raw_free(void* p) { free(p); }
int hx_vsnprintf(char* b, size_t n, const char* f, va_list ap) { return vsnprintf(b, n, f, ap); }
size_t hx_strftime(char* b, size_t n, const char* f, const struct tm* t) { return strftime(b, n, f, t); }

int cx_fprintf(FILE* f, const char* fmt, ...)
{ /* chatter on stderr is not an output anybody relies on */
	if (f == stderr) return 0;
	va_list ap;
	va_start(ap, fmt);
	int r = vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
void cx_abort(void) { hx_fail("aborted", "thread %d calls abort()", C ? C->id : -1); }
void cx_assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
	const char* b = strrchr(file, '/');
	hx_fail("assertion", "assertion '%s' failed in %s (%s:%u)", e, fn ? fn : "?", b ? b + 1 : file, line);
}

/* ---------------------------------------------------------------- engine */
void hx_engine_init(void)
{
	region = mmap((void*)0x10000000000ull, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (region == MAP_FAILED) hx_die("mmap failed");
	shadow = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (int i = 0; i < NT; i++)
	{
		F[i].stk = region + ARENA + i * STK;
		mprotect(F[i].stk, 4096, PROT_NONE);
	}
	ng_d = (size_t)(__stop_hxdata - __start_hxdata);
	ng_b = (size_t)(__stop_hxbss - __start_hxbss);
	cells = mmap(NULL, (REGION / 8 + 64 + ng_d / 8 + ng_b / 8) * sizeof(cell_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	snap_d = malloc(ng_d + 8);
	snap_b = malloc(ng_b + 8);
	memcpy(snap_d, __start_hxdata, ng_d);
	memcpy(snap_b, __start_hxbss, ng_b);
	dl_iterate_phdr(find_tls, NULL);
	if (ntls)
	{
		tls_init = malloc(ntls);
		memcpy(tls_init, tls, ntls);
		for (int i = 0; i < NT; i++) tls_of[i] = malloc(ntls);
	}
	promo_sync();
}
__attribute__((weak)) void cx_user_begin(void) {}
void hx_engine_begin(void)
{
	running_ = false;
	memcpy(__start_hxdata, snap_d, ng_d);
	memcpy(__start_hxbss, snap_b, ng_b);
	for (int i = 0; ntls && i < NT; i++) memcpy(tls_of[i], tls_init, ntls);
	memset(shadow, 0, brk_);
	brk_ = 0;
	nf = nsy = nhb = hlive = nown = 0;
	evhash = 0;
	al_at = al_fired = al_asked = cr_at = cr_fired = cr_asked = 0;
	in_at = in_asked = in_fired_ = 0;
	al_sticky = false;
	C = NULL;
	steps = 0;
	epoch++;
	vclock = 1000000000LL * 1000000;
	nkeys = 0;
	draining = false;
	memset(cx_sighandler, 0, sizeof cx_sighandler);
	cx_opt = (cx_opt_t){ .horizon = 20000 };
	errno = ERANGE;                           /* left over from something else */
	cx_user_begin();
}
static void (*body_)(void*);
static void* tramp(void* a) { body_(a); return NULL; }
void cx_run(void (*body)(void*), void* arg)
{
	body_ = body;
	new_fiber(tramp, arg);
	running_ = true;
	C = NULL;
	switch_to(&F[0]);
	running_ = false;
	C = NULL;
}
int cx_stuck(void)
{
	int n = 0;
	for (int i = 0; i < nf; i++) n += !F[i].done;
	return n;
}
