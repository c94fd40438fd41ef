#define _GNU_SOURCE
#include "seq.h"
#include <errno.h>
#include <link.h>
#include <stdarg.h>
#include <limits.h>

typedef struct { void* p; size_t n; int ord; } blk_t;
#define NB (1 << 19)
static blk_t tab[NB];
static int live, ord, fail_at, fired, asked;
static bool sticky;
static int used[NB], nused;

static unsigned hp(const void* p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (NB - 1); }
static void put(void* p, size_t n)
{
	if (nused >= NB / 2) hx_die("too many allocations in one execution");
	unsigned i = hp(p);
	while (tab[i].p && tab[i].p != (void*)1) i = (i + 1) & (NB - 1);
	if (!tab[i].p) used[nused++] = (int)i;
	tab[i].p = p, tab[i].n = n, tab[i].ord = ord;
	live++;
}
static blk_t* get(const void* p)
{
	unsigned i = hp(p);
	while (tab[i].p) { if (tab[i].p == p) return &tab[i]; i = (i + 1) & (NB - 1); }
	return NULL;
}

static bool refuse(size_t n)
{
	ord++;
	asked++;
	if (n > (1u << 28)) { errno = ENOMEM; return true; }
	if (fail_at && (asked == fail_at || (sticky && asked > fail_at))) { fired++; errno = ENOMEM; return true; }
	return false;
}
void sq_fail_alloc(int k, bool st) { fail_at = k, sticky = st, fired = 0, asked = 0; }
int sq_alloc_fired(void) { return fired; }
int sq_allocs(void) { return asked; }
int sq_live(void) { return live; }
size_t sq_block_size(const void* p) { blk_t* b = get(p); return b ? b->n : 0; }

static bool deferring;
static void* defer[256];
static int ndefer;
void sq_defer_frees(bool on) { deferring = on; }

void* sq_malloc(size_t n)
{
	if (refuse(n)) return NULL;
	void* p = malloc(n);
	if (!p) return NULL;
	memset(p, 0xA5, n);
	put(p, n);
	return p;
}
void* sq_calloc(size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	if (refuse(n)) return NULL;
	void* p = calloc(1, n);
	if (p) put(p, n);
	return p;
}
void* sq_realloc(void* p, size_t n)
{
	if (!p) return sq_malloc(n);
	if (refuse(n)) return NULL;
	blk_t* b = get(p);
	size_t old = b ? b->n : 0;
	void* q = malloc(n ? n : 1);
	if (!q) return NULL;
	memset(q, 0xA5, n ? n : 1);
	if (!b) return realloc(p, n); /* ASan complains if it is not a heap block */
	memcpy(q, p, old < n ? old : n);
	b->p = (void*)1;
	live--;
	free(p);
	put(q, n);
	return q;
}
void sq_free(void* p)
{
	if (!p) return;
	blk_t* b = get(p);
	if (b) { b->p = (void*)1; live--; }
	if (deferring && b && ndefer < 256) { defer[ndefer++] = p; return; }
	free(p);     /* ASan reports double and invalid frees */
}
char* sq_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = sq_malloc(n);
	return p ? memcpy(p, s, n) : NULL;
}
char* sq_strndup(const char* s, size_t m)
{
	size_t n = strnlen(s, m);
	char* p = sq_malloc(n + 1);
	if (!p) return NULL;
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
int sq_vasprintf(char** out, const char* fmt, va_list ap)
{
	char* t = NULL;
	int r = vasprintf(&t, fmt, ap);
	if (r < 0) return r;
	char* p = sq_malloc((size_t)r + 1);
	if (p) memcpy(p, t, (size_t)r + 1), *out = p;
	free(t);
	return p ? r : -1;
}
int sq_asprintf(char** out, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sq_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}

int sq_printed;      /* console lines, formatted but not shown */
int sq_printf(const char* fmt, ...)
{
	va_list ap;
	char b[4096];
	va_start(ap, fmt);
	int r = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	sq_printed++;
	hx_log("   prints: %.200s", b);
	return r;
}
int sq_puts(const char* s) { return sq_printf("%s\n", s); }
int sq_putchar(int c) { return c; }

void sq_check_leaks(const char* key)
{
	hx_eval(1);
	if (!live) return;
	for (int i = 0; i < NB; i++)
		if (tab[i].p > (void*)1)
			hx_fail(key, "%d block(s) allocated by the library are never released; e.g. allocation #%d of %zu bytes", live, tab[i].ord, tab[i].n);
}

void sq_forget(void)
{
	for (int i = 0; i < nused; i++) tab[used[i]].p = NULL;
	nused = live = 0;
}

sigjmp_buf sq_abort_jb;
volatile int sq_abort_armed;
char sq_abort_what[256];
void sq_abort(void)
{
	if (sq_abort_armed) { snprintf(sq_abort_what, sizeof sq_abort_what, "abort"); siglongjmp(sq_abort_jb, 1); }
	hx_fail("aborted", "the code under test called abort()");
}
void sq_assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
	const char* b = strrchr(file, '/');
	snprintf(sq_abort_what, sizeof sq_abort_what, "assertion '%s' in %s", e, fn ? fn : "?");
	if (sq_abort_armed) siglongjmp(sq_abort_jb, 1);
	hx_fail("assertion", "assertion '%s' failed in %s (%s:%u)", e, fn ? fn : "?", b ? b + 1 : file, line);
}

/* --- the library's writable globals are restored before every execution ---- */
extern char __start_hxdata[] __attribute__((weak)), __stop_hxdata[] __attribute__((weak));
extern char __start_hxbss[] __attribute__((weak)), __stop_hxbss[] __attribute__((weak));
static char* snap_d;
static char* snap_b;
__attribute__((no_sanitize("address"))) static void cpy(char* d, const char* s, size_t n)
{
	for (; n >= 8; n -= 8, d += 8, s += 8) *(volatile uint64_t*)d = *(const uint64_t*)s;
	for (; n; n--) *(volatile char*)d++ = *s++;
}
static char* tls; /* thread-local variables of the library */
static char* snap_t;
static size_t ntls;
static int find_tls(struct dl_phdr_info* i, size_t n, void* u)
{
	(void)n, (void)u;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS) tls = i->dlpi_tls_data, ntls = i->dlpi_phdr[k].p_memsz;
	return 1; /* only the program itself */
}
__attribute__((weak)) void sq_user_begin(void) {}
void hx_engine_init(void)
{
	size_t nd = (size_t)(__stop_hxdata - __start_hxdata), nb = (size_t)(__stop_hxbss - __start_hxbss);
	snap_d = malloc(nd + 8);
	snap_b = malloc(nb + 8);
	cpy(snap_d, __start_hxdata, nd);
	cpy(snap_b, __start_hxbss, nb);
	dl_iterate_phdr(find_tls, NULL);
	if (ntls) snap_t = malloc(ntls), cpy(snap_t, tls, ntls);
}
void hx_engine_begin(void)
{
	size_t nd = (size_t)(__stop_hxdata - __start_hxdata), nb = (size_t)(__stop_hxbss - __start_hxbss);
	cpy(__start_hxdata, snap_d, nd);
	cpy(__start_hxbss, snap_b, nb);
	if (ntls) cpy(tls, snap_t, ntls);
	for (int i = 0; i < nused; i++)
	{
		if (tab[used[i]].p > (void*)1) free(tab[used[i]].p); /* left by an abandoned execution */
		tab[used[i]].p = NULL;
	}
	while (ndefer) free(defer[--ndefer]);
	deferring = false;
	nused = live = 0;
	ord = fail_at = fired = asked = 0;
	sticky = false;
	sq_abort_armed = 0;
	errno = ERANGE;                           /* left over from something else */
	sq_user_begin();
}
