/* Sequential engine: the real code under ASan, with the C library calls it
 * makes for memory (and, where a harness wants it, for I/O) routed here. */
#ifndef HX_SEQ_H
#define HX_SEQ_H
#include "hx.h"
#include <setjmp.h>

/* --- allocation --------------------------------------------------------- */
/* make the k-th allocation from now (1 = the next one) fail; 0 = none.
 * `sticky`: every later one fails as well. */
void sq_fail_alloc(int k, bool sticky);
int  sq_alloc_fired(void);         /* how many allocations were refused since sq_fail_alloc */
int  sq_allocs(void);              /* allocations asked for since sq_fail_alloc / begin */
int  sq_live(void);                /* blocks the code under test holds */
size_t sq_block_size(const void* p); /* 0: not a live block */
void sq_check_leaks(const char* key);/* hx_fail(key) if any block is still live */
void sq_forget(void);              /* treat what is live now as not leaked */
/* while on, released blocks stay readable (so that a harness can watch what
 * the code does with them instead of ASan ending the process) */
void sq_defer_frees(bool on);
void* sq_malloc(size_t n);
void* sq_calloc(size_t a, size_t b);
void* sq_realloc(void* p, size_t n);
void  sq_free(void* p);

/* --- expected aborts ------------------------------------------------------ */
extern sigjmp_buf sq_abort_jb;
extern volatile int sq_abort_armed;
extern char sq_abort_what[256];
/* runs stmt; evaluates to true when it aborted (assert or abort()) */
#define SQ_ABORTS(stmt) \
	({ bool ab_ = false; sq_abort_armed = 1; \
	   if (sigsetjmp(sq_abort_jb, 0) == 0) { stmt; } else ab_ = true; \
	   sq_abort_armed = 0; ab_; })
#endif
