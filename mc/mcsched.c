#define _GNU_SOURCE
#include "mcsched.h"
#include "mc.h"
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <limits.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- threads */
enum { FREE, RUNNABLE, JOINING, SPINNING, LOCKING, DONE };
#define NSPIN 24
struct th {
    int  st;
    sem_t  sem;
    pthread_t  real;
    void  *(*fn)(void *);
    void  *arg, *result;
    int  wait_tid;                /* JOINING */
    const char  *wait_addr;       /* SPINNING, LOCKING */
    char  *stack_lo, *stack_hi, *tp;
    struct { const void *pc, *addr; uint64_t val; int n; }  spin[NSPIN];
    int  nspin;
    int  forced;                  /* spins that nobody else could end */
    bool  joined;
};
static struct th  T[SCHED_MAX];
static int  nth, nmtx, nonce;

static bool  active, preempt;
static __thread int  me = -1;
bool  sched_fail_create;
int  sched_created, sched_joined;
char  sched_names[SCHED_MAX][32];
static pthread_t  pool[SCHED_MAX];         /* worker threads are reused by later executions */
static bool  have_pool[SCHED_MAX];
static char  *tls_lo[SCHED_MAX];
static size_t  tls_len;
static void  *tls_image;

int sched_self(void) { return me; }
void sched_off(void) { preempt = false; }
void sched_on(void) { preempt = true; }

static void hand_to(int t)
{
    int  self = me;
    bool  wait;
    if (t == self) return;
    /* after the post another execution may already reuse this thread */
    wait = self >= 0 && T[self].st != DONE;
    mc_log("  -> thread %d", t);
    sem_post(&T[t].sem);
    if (wait)
        while (sem_wait(&T[self].sem) != 0) ;
}

static int others(int *v)      /* runnable threads but the current one */
{
    int  i, n = 0;
    for (i = 0; i < nth; i++) if (i != me && T[i].st == RUNNABLE) v[n++] = i;
    return n;
}

/* The running thread cannot go on: pick another one (no preemption). */
static void block(void)
{
    int  v[SCHED_MAX], n = others(v), i;
    if (n == 0) {
        int  spinners = 0;
        /* let spinning threads look again, a bounded number of times */
        for (i = 0; i < nth; i++) if (T[i].st == SPINNING && T[i].forced < 3) v[spinners++] = i;
        if (spinners == 0) {
            char  d[200] = "";
            for (i = 0; i < nth; i++)
                sprintf(d + strlen(d), " %d:%s", i, T[i].st == JOINING ? "joining" :
                        T[i].st == SPINNING ? "waiting in a loop" : T[i].st == LOCKING ? "locking" : "done");
            mc_fail("deadlock", "every thread waits forever:%s", d);
        }
        T[v[0]].st = RUNNABLE;
        T[v[0]].forced++;
        T[v[0]].nspin = 0;
        if (v[0] == me) return;
        hand_to(v[0]);
        return;
    }
    hand_to(v[mc_choose(n)]);
}

static void point(void)
{
    int  v[SCHED_MAX], n, c;
    if (!preempt || mc_budget() <= 0) return;
    n = others(v);
    if (n == 0) return;
    c = mc_choose_dev(n + 1);
    if (c > 0) hand_to(v[c - 1]);
}

void sched_pause(void) { if (active && me >= 0) { mc_step(); point(); } }

static void stack_of_self(struct th *t)
{
    pthread_attr_t  a;
    void  *p;
    size_t  sz;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &sz);
    pthread_attr_destroy(&a);
    t->stack_lo = p;
    t->stack_hi = t->stack_lo + sz;
    t->tp = __builtin_thread_pointer();
}

static void finish(void)
{
    int  i;
    T[me].st = DONE;
    for (i = 0; i < nth; i++)
        if (T[i].st == JOINING && T[i].wait_tid == me) T[i].st = RUNNABLE;
    block();
}

static void run_destructors(void);
static void tls_bounds(void);

static void *trampoline(void *vt)
{
    struct th * const  t = vt;
    me = t - T;
    tls_bounds();
    stack_of_self(t);
    for (;;) {
        while (sem_wait(&t->sem) != 0) ;
        t->result = t->fn(t->arg);
        run_destructors();
        finish();
    }
    return NULL;
}

int mcw_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    struct th  *t;
    int  rc;
    if (!active) return pthread_create(out, attr, fn, arg);
    if (sched_fail_create && mc_choose(2) == 1) { mc_log("  pthread_create fails"); return EAGAIN; }
    if (nth == SCHED_MAX) mc_internal("too many threads");
    t = &T[nth];
    t->nspin = t->forced = 0;
    t->joined = false;
    t->fn = fn;
    t->arg = arg;
    if (!have_pool[nth]) {
        sem_init(&t->sem, 0, 0);
        rc = pthread_create(&pool[nth], NULL, trampoline, t);
        if (rc != 0) mc_internal("pthread_create: %d", rc);
        have_pool[nth] = true;
        while (*(char * volatile *) &tls_lo[nth] == NULL || *(char * volatile *) &t->tp == NULL) usleep(10);
    } else {
        memcpy(tls_lo[nth], tls_image, tls_len);   /* a new thread has fresh thread-locals */
        *(int *) (tls_lo[nth] + ((char *) &me - tls_lo[me])) = nth;
    }
    t->st = RUNNABLE;
    t->real = pool[nth];
    *out = t->real;
    nth++;
    sched_created++;
    mc_step();
    point();
    return 0;
}

static void join_tid(int i)
{
    point();
    if (T[i].joined) mc_fail("join-twice", "a thread was joined twice");
    if (T[i].st != DONE) {
        T[me].st = JOINING;
        T[me].wait_tid = i;
        block();
        T[me].st = RUNNABLE;
    }
    T[i].joined = true;
    sched_joined++;
    mc_step();
}

int mcw_pthread_join(pthread_t th, void **res)
{
    int  i;
    if (!active) return pthread_join(th, res);
    for (i = 0; i < nth; i++) if (i > 0 && pthread_equal(T[i].real, th)) break;
    if (i == nth) return ESRCH;
    if (i == me) return EDEADLK;
    join_tid(i);
    if (res) *res = T[i].result;
    return 0;
}

int mcw_pthread_setname_np(pthread_t th, const char *name)
{
    int  i;
    for (i = 0; i < nth; i++)
        if (i > 0 && pthread_equal(T[i].real, th)) snprintf(sched_names[i], 32, "%s", name);
    return 0;
}

static void *spawned(void *v)
{
    void  **a = v;
    ((void (*)(void *)) a[0])(a[1]);
    return NULL;
}

int sched_spawn(void (*fn)(void *), void *arg)
{
    static void  *cell[SCHED_MAX][2];
    int  n = nth;
    pthread_t  t;
    bool  f = sched_fail_create;
    cell[n][0] = (void *) fn;
    cell[n][1] = arg;
    sched_fail_create = false;
    mcw_pthread_create(&t, NULL, spawned, cell[n]);
    sched_fail_create = f;
    return nth - 1;
}

void sched_join(int tid) { mcw_pthread_join(T[tid].real, NULL); }

void sched_run(void (*fn)(void *), void *arg, int preemptions)
{
    nmtx = nonce = sched_created = sched_joined = 0;
    nth = 1;
    T[0].st = RUNNABLE;
    T[0].nspin = T[0].forced = 0;
    mc_set_budget(preemptions);
    preempt = true;
    active = true;
    fn(arg);
    active = false;
}

/* ---- thread-specific data ---- */
#define NKEYS 16
static struct { void (*dtor)(void *); void *val[SCHED_MAX]; }  keys[NKEYS];
static int  nkeys;
int mcw_pthread_key_create(pthread_key_t *k, void (*d)(void *))
{
    sched_pause();
    if (nkeys == NKEYS) return EAGAIN;
    memset(&keys[nkeys], 0, sizeof keys[0]);
    keys[nkeys].dtor = d;
    *k = nkeys++;
    return 0;
}
void *mcw_pthread_getspecific(pthread_key_t k) { return keys[k].val[me < 0 ? 0 : me]; }
int mcw_pthread_setspecific(pthread_key_t k, const void *v) { keys[k].val[me < 0 ? 0 : me] = (void *) v; return 0; }
static void run_destructors(void)
{
    int  i, it;
    for (it = 0; it < 4; it++)
        for (i = 0; i < nkeys; i++) {
            void  *v = keys[i].val[me];
            keys[i].val[me] = NULL;
            if (v != NULL && keys[i].dtor != NULL) keys[i].dtor(v);
        }
}
void sched_main_destructors(void) { run_destructors(); }

/* ---- process exit ---- */
static void (*exits[64])(void);
static int  nexits;
int mcw_atexit(void (*fn)(void))
{
    if (nexits == 64) return -1;
    exits[nexits++] = fn;
    return 0;
}
/* What exit() does in the main thread. */
void sched_exit_process(void)
{
    while (nexits > 0) exits[--nexits]();
}
int sched_atexits(void) { return nexits; }

/* yields and sleeps in the code under test */
int mcw_sched_yield(void) { sched_pause(); return 0; }
int mcw_usleep(unsigned u) { sched_pause(); return 0; }
int mcw_nanosleep(const struct timespec *a, struct timespec *b) { sched_pause(); return 0; }

/* mutexes */
static struct { void *m; int owner; int depth; }  mtx[64];
static int mutex_of(void *m)
{
    int  i;
    for (i = 0; i < nmtx; i++) if (mtx[i].m == m) return i;
    if (nmtx == 64) mc_internal("too many mutexes");
    mtx[nmtx].m = m;
    mtx[nmtx].owner = -1;
    return nmtx++;
}
int mcw_pthread_mutex_trylock(pthread_mutex_t *m)
{
    int  i;
    if (!active) return pthread_mutex_trylock(m);
    point();
    i = mutex_of(m);
    if (mtx[i].owner >= 0) return EBUSY;
    mtx[i].owner = me;
    return 0;
}
int mcw_pthread_mutex_lock(pthread_mutex_t *m)
{
    int  i;
    if (!active) return pthread_mutex_lock(m);
    point();
    i = mutex_of(m);
    while (mtx[i].owner >= 0) {
        T[me].st = LOCKING;
        T[me].wait_addr = (char *) m;
        block();
        T[me].st = RUNNABLE;
    }
    mtx[i].owner = me;
    return 0;
}
int mcw_pthread_mutex_unlock(pthread_mutex_t *m)
{
    int  i, k;
    if (!active) return pthread_mutex_unlock(m);
    i = mutex_of(m);
    mtx[i].owner = -1;
    for (k = 0; k < nth; k++)
        if (T[k].st == LOCKING && T[k].wait_addr == (char *) m) T[k].st = RUNNABLE;
    point();
    return 0;
}
int mcw_pthread_once(pthread_once_t *o, void (*fn)(void))
{
    static struct { pthread_once_t *o; int st; }  tab[16];
#define n nonce
    int  i;
    if (!active) return pthread_once(o, fn);
    point();
    for (i = 0; i < n; i++) if (tab[i].o == o) break;
    if (i == n) {
        if (n == 16) mc_internal("too many pthread_once");
        tab[n].o = o;
        tab[n++].st = 1;
        fn();
        tab[i].st = 2;
        return 0;
    }
    while (tab[i].st != 2) {
        int  v[SCHED_MAX], k = others(v);
        if (k == 0) mc_fail("deadlock", "pthread_once waits forever");
        hand_to(v[mc_choose(k)]);
    }
    return 0;
}

#undef n
/* ---------------------------------------------------------------- memory */
#define ARENA    (1 << 20)
#define GRAN     16
static char  *arena;                        /* SCHED_MAX arenas, at one place */
static size_t  used[SCHED_MAX];
static unsigned char  *gstate;              /* per granule: 0 unused 1 header 2 live 3 freed */
static size_t  live, frees;

static void arena_init(void)
{
    if (arena != NULL) return;
    arena = mmap((void *) 0x600000000000UL, (size_t) ARENA * SCHED_MAX, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    gstate = mmap(NULL, (size_t) ARENA * SCHED_MAX / GRAN, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || gstate == MAP_FAILED) mc_internal("mmap of the arena failed");
}

static bool in_arena(const void *p)
{ return arena && (char *) p >= arena && (char *) p < arena + (size_t) ARENA * SCHED_MAX; }

void *mcw_malloc(size_t n)
{
    int  a = me < 0 ? 0 : me;
    size_t  sz = (n + GRAN - 1) / GRAN * GRAN, at;
    char  *p;
    arena_init();
    if (sz == 0) sz = GRAN;
    if (used[a] + sz + GRAN > ARENA) mc_internal("arena exhausted");
    p = arena + (size_t) a * ARENA + used[a];
    used[a] += sz + 2 * GRAN;              /* the last granule is a red zone */
    *(size_t *) p = n;
    at = (p - arena) / GRAN;
    gstate[at] = 1;
    memset(gstate + at + 1, 2, sz / GRAN);
    memset(p + GRAN, 0xa5, sz);
    live++;
    return p + GRAN;
}

void mcw_free(void *p)
{
    size_t  at;
    if (p == NULL) return;
    if (!in_arena(p)) mc_fail("bad-free", "a pointer that was not allocated is freed");
    at = ((char *) p - arena) / GRAN - 1;
    if (gstate[at] != 1 || gstate[at + 1] != 2)
        mc_fail("double-free", "a block is freed twice (or was never allocated)");
    for (at++; gstate[at] == 2; at++) gstate[at] = 3;
    memset(p, 0xdf, ((size_t *) p)[-2]);
    live--;
    frees++;
}

void *mcw_calloc(size_t a, size_t b)
{
    void  *p = mcw_malloc(a * b);
    memset(p, 0, a * b);
    return p;
}

void *mcw_realloc(void *p, size_t n)
{
    void  *q = mcw_malloc(n);
    if (p) {
        size_t  o = ((size_t *) p)[-2];
        memcpy(q, p, o < n ? o : n);
        mcw_free(p);
    }
    return q;
}
/* ---- back to the state of the first call ----
 * The objects of the library and of the harness keep their static data in the sections
 * mc_data and mc_bss (check.py renames them), so that they can be restored. */
extern char  __start_mc_data[] __attribute__((weak)), __stop_mc_data[] __attribute__((weak));
extern char  __start_mc_bss[] __attribute__((weak)), __stop_mc_bss[] __attribute__((weak));
static char  *saved_data, *saved_bss;
static char  ring_tls[4096];

static int find_tls(struct dl_phdr_info *i, size_t n, void *out)
{
    int  k;
    if (i->dlpi_name[0] != 0) return 0;
    for (k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            size_t  al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
            tls_len = (i->dlpi_phdr[k].p_memsz + al - 1) / al * al;
        }
    return 1;
}
static void tls_bounds(void)
{
    if (tls_len == 0) dl_iterate_phdr(find_tls, NULL);
    tls_lo[me < 0 ? 0 : me] = (char *) __builtin_thread_pointer() - tls_len;
}

void sched_fresh(void)
{
    static bool  marked;
    static size_t  mark[SCHED_MAX], mlive;
    int  i;
    arena_init();
    if (!marked) {
        marked = true;
        memcpy(mark, used, sizeof used);
        mlive = live;
        me = 0;
        tls_bounds();
        if (tls_len > sizeof ring_tls) mc_internal("large TLS block");
        tls_image = memcpy(ring_tls, tls_lo[0], tls_len);
        stack_of_self(&T[0]);
        T[0].real = pthread_self();
        sem_init(&T[0].sem, 0, 0);
        saved_data = malloc(__stop_mc_data - __start_mc_data + 1);
        saved_bss = malloc(__stop_mc_bss - __start_mc_bss + 1);
        memcpy(saved_data, __start_mc_data, __stop_mc_data - __start_mc_data);
        memcpy(saved_bss, __start_mc_bss, __stop_mc_bss - __start_mc_bss);
        return;
    }
    memcpy(__start_mc_data, saved_data, __stop_mc_data - __start_mc_data);
    memcpy(__start_mc_bss, saved_bss, __stop_mc_bss - __start_mc_bss);
    memcpy(tls_lo[0], tls_image, tls_len);
    nkeys = nexits = 0;
    sched_fail_create = false;
    live = mlive;
    frees = 0;
    for (i = 0; i < SCHED_MAX; i++) {
        size_t  a = ((size_t) i * ARENA + mark[i]) / GRAN;
        memset(gstate + a, 0, (used[i] - mark[i]) / GRAN);
        used[i] = mark[i];
    }
}
char *mcw_strdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(mcw_malloc(n), s, n); }
size_t sched_live(void) { return live; }
size_t sched_frees(void) { return frees; }
bool sched_is_live(const void *p)
{ return in_arena(p) && gstate[((char *) p - arena) / GRAN] == 2; }

/* ---------------------------------------------------------------- access hooks */
static bool is_shared(const char *a)
{
    struct th  *t = &T[me];
    if (a >= t->stack_lo && a < t->stack_hi) return false;
    if (a <= t->tp && a > t->tp - 4096) return false;
    if (me > 0 && in_arena(a) && (size_t) (a - arena) / ARENA == (size_t) me) return false;
    return true;
}

static void uaf(const char *a)
{
    if (in_arena(a) && gstate[(a - arena) / GRAN] != 2)
        mc_fail("use-after-free", "thread %d touches memory that %s", me,
                gstate[(a - arena) / GRAN] == 3 ? "was freed" : "is outside any block");
}

static void wrote(const char *a, size_t n)
{
    int  i;
    T[me].nspin = 0;
    for (i = 0; i < nth; i++)
        if (T[i].st == SPINNING && T[i].wait_addr < a + n && T[i].wait_addr + 8 > a) {
            T[i].st = RUNNABLE;
            T[i].nspin = 0;
            T[i].forced = 0;
        }
}

static uint64_t peek(const char *a, size_t n)
{
    uint64_t  v = 0;
    memcpy(&v, a, n < 8 ? n : 8);
    return v;
}

/* The thread read `val`; a loop that keeps reading it without writing waits for it. */
static void spun(const void *pc, const char *a, uint64_t val)
{
    struct th  *t = &T[me];
    int  i;
    for (i = 0; i < t->nspin; i++)
        if (t->spin[i].pc == pc && t->spin[i].addr == a && t->spin[i].val == val) break;
    if (i == t->nspin) {
        if (i == NSPIN) { t->nspin = i = 0; }
        t->spin[i].pc = pc;
        t->spin[i].addr = a;
        t->spin[i].val = val;
        t->spin[i].n = 0;
        t->nspin++;
    }
    if (++t->spin[i].n < 4) return;
    t->st = SPINNING;
    t->wait_addr = a;
    mc_log("  thread %d waits in a loop", me);
    block();
    t->st = RUNNABLE;
    t->nspin = 0;
}

static void on_read(const void *pc, const char *a, size_t n, bool vol)
{
    if (!active || me < 0) return;
    uaf(a);
    if (!is_shared(a)) return;
    mc_step();
    point();
    uaf(a);
    if (vol) spun(pc, a, peek(a, n));
}

static void on_write(const void *pc, const char *a, size_t n)
{
    if (!active || me < 0) return;
    uaf(a);
    if (!is_shared(a)) return;
    mc_step();
    point();
    uaf(a);
    wrote(a, n);
}

#define PC  __builtin_return_address(0)
#define ACC(n) \
    void __tsan_read##n(void *a) { on_read(PC, a, n, false); } \
    void __tsan_write##n(void *a) { on_write(PC, a, n); } \
    void __tsan_unaligned_read##n(void *a) { on_read(PC, a, n, false); } \
    void __tsan_unaligned_write##n(void *a) { on_write(PC, a, n); } \
    void __tsan_volatile_read##n(void *a) { on_read(PC, a, n, true); } \
    void __tsan_volatile_write##n(void *a) { on_write(PC, a, n); } \
    void __tsan_unaligned_volatile_read##n(void *a) { on_read(PC, a, n, true); } \
    void __tsan_unaligned_volatile_write##n(void *a) { on_write(PC, a, n); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, size_t n) { on_read(PC, a, n, false); }
void __tsan_write_range(void *a, size_t n) { on_write(PC, a, n); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}

static void before_atomic(const char *a)
{
    if (!active || me < 0) return;
    uaf(a);
    mc_step();
    point();
    uaf(a);
}
static void after_atomic(const void *pc, const char *a, size_t n, bool changed, uint64_t seen)
{
    if (!active || me < 0) return;
    if (changed) wrote(a, n);
    else spun(pc, a, seen);
}

#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) \
{ T v; before_atomic((char *) a); v = *a; after_atomic(PC, (char *) a, sizeof(T), false, v); return v; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) \
{ before_atomic((char *) a); *a = v; after_atomic(PC, (char *) a, sizeof(T), true, 0); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) \
{ T o; before_atomic((char *) a); o = *a; *a = v; \
  after_atomic(PC, (char *) a, sizeof(T), o != v, o); return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) \
{ T o; before_atomic((char *) a); o = *a; *a = o + v; after_atomic(PC, (char *) a, sizeof(T), true, 0); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) \
{ T o; before_atomic((char *) a); o = *a; *a = o - v; after_atomic(PC, (char *) a, sizeof(T), true, 0); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) \
{ T o; before_atomic((char *) a); o = *a; *a = o & v; after_atomic(PC, (char *) a, sizeof(T), true, 0); return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) \
{ T o; before_atomic((char *) a); o = *a; *a = o | v; after_atomic(PC, (char *) a, sizeof(T), true, 0); return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) \
{ T o; before_atomic((char *) a); o = *a; *a = o ^ v; after_atomic(PC, (char *) a, sizeof(T), true, 0); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) \
{ T o; before_atomic((char *) a); o = *a; \
  if (o == *c) { *a = v; after_atomic(PC, (char *) a, sizeof(T), true, 0); return 1; } \
  after_atomic(PC, (char *) a, sizeof(T), false, o); *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) \
{ return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) \
{ T o = c; __tsan_atomic##bits##_compare_exchange_strong(a, &o, v, mo, fmo); return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
