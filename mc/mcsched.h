/* A controlled scheduler for real pthreads.  The library and the harness are compiled with
 * -fsanitize=thread, whose per-access hooks are defined here (no TSan runtime): one thread
 * runs at a time, and every access to shared memory is a point at which mc_choose_dev() may
 * preempt the running thread. */
#ifndef SCHED_H
#define SCHED_H
#include <stdbool.h>
#include <stddef.h>
#define SCHED_MAX  8
/* Runs fn(arg) as thread 0 under the scheduler, with `preemptions` preemptive switches. */
void sched_run(void (*fn)(void *), void *arg, int preemptions);
int  sched_spawn(void (*fn)(void *), void *arg);   /* a thread the library knows nothing of */
void sched_join(int tid);
int  sched_self(void);
void sched_pause(void);            /* a scheduling point */
void sched_off(void);              /* stop preempting (blocking still switches) */
void sched_on(void);
size_t sched_live(void);           /* blocks the library has allocated and not freed */
/* Start of an execution: static data, thread-locals and heap go back to what they were at the
 * first call.  Call first in mc_run(). */
void sched_fresh(void);
void sched_exit_process(void);     /* runs what the library registered with atexit() */
void sched_main_destructors(void);
int  sched_atexits(void);
size_t sched_frees(void);
bool sched_is_live(const void *p); /* p points into a live block */
extern bool sched_fail_create;     /* pthread_create may fail (a deviation) */
extern int  sched_created, sched_joined;
extern char sched_names[SCHED_MAX][32];
/* wrappers the harness may call too */
#include <pthread.h>
int  mcw_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int  mcw_pthread_join(pthread_t, void **);
void *mcw_malloc(size_t);
void mcw_free(void *);
#endif
