/* Concurrency engine: the real code (compiled with -fsanitize=thread
 * instrumentation, but linked against THIS runtime instead of libtsan) runs on
 * fibers under a scheduler that owns every interleaving decision. */
#ifndef HX_CX_H
#define HX_CX_H
#include "hx.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct
{
	bool spurious;        /* condition waits may wake spuriously (1 deviation)       */
	bool costly_switch;   /* non-default choice at a blocking point costs a deviation */
	long time_step_us;    /* virtual time that passes per clock reading              */
	int  horizon;         /* scheduling steps before "livelock"                      */
	bool one_schedule;    /* only the default (round-robin) schedule: for very long runs */
	bool no_prune;        /* do not merge executions with equal happens-before prefix */
	bool eintr;           /* semaphore waits may be interrupted (1 deviation)        */
} cx_opt_t;
extern cx_opt_t cx_opt;          /* reset to defaults before each execution */

/* run body as thread 0 (and every thread it creates) to completion */
void cx_run(void (*body)(void*), void* arg);
int  cx_stuck(void);             /* threads still blocked after cx_run */
const char* cx_where(int tid);   /* what a thread is blocked on */
int  cx_nthreads(void);          /* threads created in this execution, incl. 0 */
bool cx_blocked(int tid);        /* started and waiting for somebody else */
int  cx_self(void);
/* an observation: visible to other threads' oracles, so its order matters */
void cx_event(const char* what, long a, long b);
void cx_point(const char* what); /* an extra scheduling point */
/* block the calling thread until pred(arg) is true (harness-side waiting) */
void cx_until(bool (*pred)(void*), void* arg, const char* what);
void cx_fail_alloc(int k, bool sticky);
int  cx_alloc_fired(void);
void cx_fail_create(int k);      /* k-th pthread_create from now returns EAGAIN */
int  cx_create_fired(void);
void cx_fail_init(int k);        /* k-th initialisation of a lock or semaphore from now fails */
int  cx_init_fired(void);
size_t cx_stacksize(int tid);   /* the stack size asked for when it was created */
const char* cx_name(int tid);    /* the name a thread was given */
int  cx_live(void);
void cx_check_leaks(const char* key);
void cx_check_access(const void* p, size_t n, const char* what);
int64_t cx_now_us(void);
void cx_set_now_us(int64_t t);
int  cx_sync_left(void);         /* mutexes/conds/... initialised and not destroyed */
#ifdef __cplusplus
}
#endif
#endif
