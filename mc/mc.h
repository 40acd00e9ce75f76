/* Bounded-exhaustive explorer of choice sequences over the real code. */
#ifndef MC_H
#define MC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* ---- supplied by the harness ---- */
extern const char *mc_harness_name;
int  mc_roots(void);            /* number of independent roots (configurations) */
void mc_run(int root);          /* one execution; calls mc_choose() */
void mc_init(void);             /* weak: once per explorer process, before exploring */
void mc_root_name(int root, char *buf, size_t n);   /* weak */

/* ---- choices ---- */
int  mc_choose(int n);          /* 0..n-1, every value is explored */
int  mc_choose_dev(int n);      /* choice 0 is free; others use one deviation */
void mc_set_budget(int k);      /* deviations left for this execution */
int  mc_budget(void);
void mc_charge(int k);          /* use up deviations */

/* ---- verdicts ---- */
/* Report a violation of the property and end this execution's process.  `key`
 * identifies the failing input/site (used for the known-findings file). */
void mc_fail(const char *key, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
#define mc_check(cond, key, ...) \
    do { if (!(cond)) mc_fail((key), __VA_ARGS__); } while (0)
/* An error of the harness itself (not a violation). */
void mc_internal(const char *fmt, ...)
    __attribute__((noreturn, format(printf, 1, 2)));
/* Sets the key reported if the code under test crashes or hangs. */
void mc_crash_key(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* ---- accounting ---- */
void mc_step(void);             /* one operation/transition executed on the real code */
void mc_steps(uint64_t n);
void mc_state(uint64_t hash);   /* a (model+observed) state was reached */
bool mc_seen(uint64_t hash, int remaining);  /* true: already explored at least this deep */
extern int  mc_unpruned;        /* the first so many states of an execution are never pruned: an
                                 * implementation may hide state that the hash doesn't show */
bool mc_fresh(void);            /* false while re-executing a prefix already checked */
void mc_cover(const char *name);/* outcome counter, shown in the evidence */
void mc_eval(uint64_t n);       /* n inputs evaluated inside this execution */

/* ---- logging of the execution (only produced in replays) ---- */
extern int mc_verbose;
void mc_log_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define mc_log(...)  do { if (mc_verbose) mc_log_(__VA_ARGS__); } while (0)

/* ---- tiers ---- */
extern int mc_thorough;         /* 0 quick, 1 thorough */
#define MC_T(q, t)  (mc_thorough ? (t) : (q))
extern const char *mc_arg;      /* --arg */

/* ---- hashing ---- */
static inline uint64_t mc_h(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
static inline uint64_t mc_hbuf(uint64_t h, const void *p, size_t n)
{
    const unsigned char *b = p;
    size_t i;
    h = mc_h(h, n);
    for (i = 0; i < n; i++) h = mc_h(h, b[i] + 1);
    return h;
}
const char *mc_quote(const void *p, size_t n);   /* printable form, rotating static buffers */
void mc_silence(void);    /* /dev/null on stdout+stderr in this process (unless replaying) */
bool mc_replaying(void);

/* The execution index within this process (0 based). */
uint64_t mc_exec_index(void);

/* Run `fn(arg)` in a forked child and wait; returns wait status. The child shares
 * the violation slot, so mc_fail() in it is reported; a crash of it is a crash. */
int mc_in_child(void (*fn)(void *), void *arg);
/* As above, but a crash/abort of the child is returned, not reported. */
int mc_in_child_raw(void (*fn)(void *), void *arg);
#endif
