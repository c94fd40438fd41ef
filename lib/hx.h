/* hx: a small exhaustive explorer.
 *
 * A scenario is a C function that asks hx_choose()/hx_deviate() for every
 * nondeterministic decision (an operation, an argument, an environment answer,
 * which thread runs next ...).  The explorer re-executes the scenario for
 * EVERY vector of answers (odometer depth-first search), subject only to the
 * deviation bound: hx_choose() alternatives are free and always all explored,
 * a non-zero answer to hx_deviate() costs one deviation.
 */
#ifndef HX_H
#define HX_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct
{
	const char* name;
	void (*fn)(void);
	int quick;         /* deviation bound in the quick tier, -1: skip the scenario */
	int thorough;      /* deviation bound in the thorough tier, -1: skip           */
	const char* desc;  /* what is enumerated (goes to the evidence file)           */
} hx_scn_t;

/* provided by the harness */
extern const hx_scn_t hx_scenarios[];
extern const int hx_n_scenarios;
/* optional engine hooks (weak defaults in core) */
void hx_engine_init(void);           /* once per process                        */
void hx_engine_begin(void);          /* before each execution: reset the world  */
void hx_engine_end(void);            /* after each execution that ran to the end */

extern int hx_tier;                  /* 0 quick, 1 thorough */
#define HX_T(q, t) (hx_tier ? (t) : (q))

int  hx_choose(int n, const char* what);
int  hx_deviate(int n, const char* what);
int  hx_deviate_cost(int n, const char* what, int cost_of_nonzero);
int  hx_devs_left(void);
bool hx_tracing(void);
void hx_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
/* a property violation: key is a short stable identifier, the rest is explanation */
void hx_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
/* the machinery itself cannot go on: never a verdict */
void hx_die(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
/* drop this execution (its prefix is redundant: a legal but uninteresting branch) */
void hx_prune(void) __attribute__((noreturn));
void hx_state(uint64_t h);           /* a (canonical) state reached             */
void hx_trans(uint64_t n);           /* n transitions executed                  */
void hx_outcome(uint64_t h);         /* what this execution was observed to do  */
void hx_eval(uint64_t n);            /* n oracle comparisons done               */
uint64_t hx_hash(uint64_t h, const void* p, size_t n);
static inline uint64_t hx_mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	h ^= h >> 32;
	return h;
}
#define HX_CHECK(c, key, ...) do { hx_eval(1); if (!(c)) hx_fail(key, __VA_ARGS__); } while (0)

extern uint64_t hx_execs_total;      /* executions run by this worker           */
#ifdef __cplusplus
}
#endif
#endif
