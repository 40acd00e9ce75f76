/* C38: thread-local instances and per-thread garbage collectors, under every interleaving of the
 * threads using theirs. */
#include <pthread.h>
int mcw_pthread_key_create(pthread_key_t *, void (*)(void *));
void *mcw_pthread_getspecific(pthread_key_t);
int mcw_pthread_setspecific(pthread_key_t, const void *);
#define pthread_key_create mcw_pthread_key_create
#define pthread_getspecific mcw_pthread_getspecific
#define pthread_setspecific mcw_pthread_setspecific
#include <libcork/core.h>
#include <libcork/threads.h>
#include <libcork/helpers/gc.h>
#include "mc.h"
#include "mcsched.h"
const char *mc_harness_name = HARNESS_NAME;
#define QUIET __attribute__((no_sanitize("thread")))

struct big { char bytes[200]; bool set; void *p; };
#define MAXT 4
#define MAXO 3

/* ---- the instances ---- */
static int  allocs[MAXT], deallocs[MAXT], allocated_here;
static void  *alloced[MAXT];
#if !CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS
#define KEYS 1
static QUIET struct big *take(void)
{
    struct big  *b;
    int  t = sched_self();
    mc_check(++allocs[t] == 1, "allocated-twice", "thread %d's instance is allocated twice", t);
    b = mcw_malloc(sizeof *b);
    memset(b, 'A', sizeof *b);
    alloced[t] = b;
    return b;
}
static QUIET void give(void *v)
{
    int  t = sched_self();
    mc_check(v == alloced[t] && deallocs[t] == 0, "deallocation", "thread %d's deallocation gets %p, its instance is %p", t, v, alloced[t]);
    deallocs[t]++;
    mcw_free(v);
}
#else
#define KEYS 0
#endif
cork_tls(int, tls_int);
cork_tls(struct big, tls_big);
cork_tls(int, tls_other);
cork_tls_with_alloc(struct big, tls_made, take, give);

enum { T_INT, T_BIG, T_OTHER, T_MADE, NVAR, G_NEW = NVAR, G_RING, G_DROP, G_DONE, NOPS };
static const char *opn[] = { "int", "struct", "other int", "allocated struct", "new object", "new ring", "drop a reference", "finish the collector" };
static const size_t  vsize[NVAR] = { sizeof(int), sizeof(struct big), sizeof(int), sizeof(struct big) };
static char  *inst[MAXT][NVAR];
static unsigned char  stamp[MAXT][NVAR];

static __attribute__((noinline)) void *lib_get(int v)
{ return v == T_INT ? (void *) tls_int_get() : v == T_BIG ? (void *) tls_big_get() : v == T_OTHER ? (void *) tls_other_get() : (void *) tls_made_get(); }

static QUIET void use(int t, int v)
{
    char  *p = lib_get(v), *q;
    size_t  i, u;
    int  o;
    mc_check(p != NULL, "null", "thread %d gets no instance of the %s", t, opn[v]);
    if (inst[t][v] == NULL) {
        unsigned char  want = v == T_MADE && KEYS ? 'A' : 0;
        for (i = 0; i < vsize[v]; i++)
            mc_check((unsigned char) p[i] == want, "first-contents", "thread %d's first %s has byte %02x at %zu", t, opn[v], (unsigned char) p[i], i);
        if (v == T_MADE && KEYS) mc_check(p == alloced[t], "allocated", "thread %d's instance is not the allocated one", t);
        inst[t][v] = p;
    } else {
        mc_check(p == inst[t][v], "moved", "thread %d's %s moves", t, opn[v]);
        for (i = 0; i < vsize[v]; i++)
            mc_check((unsigned char) p[i] == stamp[t][v], "contents", "thread %d's %s changes by itself", t, opn[v]);
    }
    for (o = 0; o < MAXT; o++) for (u = 0; u < NVAR; u++) {
        q = inst[o][u];
        if (q == NULL || (o == t && (int) u == v)) continue;
        mc_check(p + vsize[v] <= q || q + vsize[u] <= p, "shared", "thread %d's %s overlaps thread %d's %s", t, opn[v], o, opn[u]);
    }
    stamp[t][v] = 16 * (t + 1) + v + 1 + (stamp[t][v] & 8 ? 0 : 8);
    memset(p, stamp[t][v], vsize[v]);
}

/* ---- objects ---- */
struct obj { struct obj *next; int n, owner; };
#define MAXOBJ 64
static struct { bool freed, held; int owner; struct obj *o, *next; }  objs[MAXOBJ];
static int  nobjs;
static QUIET void o_free(void *v)
{
    struct obj  *o = v;
    mc_check(o->n >= 0 && o->n < nobjs && objs[o->n].o == o, "foreign-object", "the free callback gets no object");
    mc_check(!objs[o->n].freed, "freed-twice", "object %d is freed twice", o->n);
    mc_check(o->owner == sched_self(), "wrong-collector", "thread %d's object is freed by thread %d", o->owner, sched_self());
    mc_check(!objs[o->n].held, "freed-reachable", "object %d is freed while its thread refers to it", o->n);
    if (objs[o->n].next == NULL) mc_check(sched_is_live(o), "free-order", "an object is released before its callback");
    objs[o->n].freed = true;
}
static QUIET void o_recurse(struct cork_gc *gc, void *v, cork_gc_recurser recurse, void *ud)
{
    struct obj  *o = v;
    mc_check(o->owner == sched_self(), "wrong-collector", "thread %d's object is visited by thread %d", o->owner, sched_self());
    recurse(gc, o->next, ud);
}
static struct cork_gc_obj_iface  iface = { o_free, o_recurse };
static QUIET struct obj *make(void)
{
    struct obj  *o = cork_gc_new_iface(struct obj, &iface);
    int  i;
    for (i = 0; i < nobjs; i++) if (!objs[i].freed) mc_check(objs[i].o != o, "object-shared", "two live objects are one");
    o->n = nobjs; o->owner = sched_self(); o->next = NULL;
    objs[nobjs].o = o; objs[nobjs].owner = o->owner; objs[nobjs].held = true; objs[nobjs].freed = false; objs[nobjs].next = NULL;
    nobjs++;
    return o;
}
static QUIET void reachable(int t)
{
    int  i;
    for (i = 0; i < nobjs; i++)
        if (objs[i].owner == t && objs[i].held)
            mc_check(!objs[i].freed && sched_is_live(objs[i].o) && objs[i].o->next == objs[i].next && objs[i].o->n == i, "lost",
                     "thread %d's object %d, which it refers to, is lost", t, i);
}
static QUIET void collected(int t)
{
    int  i;
    for (i = 0; i < nobjs; i++)
        if (objs[i].owner == t && !objs[i].held) mc_check(objs[i].freed, "not-freed", "thread %d has finished its collector, its garbage object %d remains", t, i);
}
static QUIET void gc_op(int t, int op, struct obj **held, int *nheld)
{
    struct obj  *a, *b;
    switch (op) {
        case G_NEW: held[(*nheld)++] = make(); break;
        case G_RING:
            a = make(); b = make();
            objs[a->n].next = a->next = cork_gc_incref(b);
            objs[b->n].next = b->next = a;           /* the ring has the only reference to a */
            held[(*nheld)++] = b;
            break;
        case G_DROP:
            if (*nheld == 0) break;
            a = held[--*nheld];
            objs[a->n].held = false;
            if (a->next == NULL) {
                int  k = a->n;
                cork_gc_decref(a);
                mc_check(objs[k].freed, "not-freed", "the last reference of an object is dropped, it isn't freed");
            } else {
                objs[a->next->n].held = false;       /* both members go at once */
                cork_gc_decref(a);
            }
            break;
        case G_DONE: cork_gc_done(); collected(t); break;
    }
    reachable(t);
}

/* ---- threads ---- */
static int  nt, no, prog[MAXT][MAXO], pb, start_later;
static QUIET void body(void *vt)
{
    int  t = (int) (long) vt, i, nheld = 0, gc = 0;
    struct obj  *held[2 * MAXO];
    for (i = 0; i < no; i++) {
        int  op = prog[t][i];
        if (op < NVAR) use(t, op);
        else { gc = 1; gc_op(t, op, held, &nheld); }
    }
    if (gc) {
        while (nheld > 0) gc_op(t, G_DROP, held, &nheld);
        gc_op(t, G_DONE, held, &nheld);
    }
    for (i = 0; i < NVAR; i++) if (inst[t][i]) use(t, i);
    if (t > 0) for (i = 0; i < NVAR; i++) inst[t][i] = NULL;   /* may be somebody else's from now on */
}
static QUIET void all(void *unused)
{
    int  t;
    for (t = 1; t < nt; t++) {
        sched_spawn(body, (void *) (long) t);
        if (start_later) sched_join(t);             /* one after the other */
    }
    body((void *) 0L);
    if (!start_later) for (t = 1; t < nt; t++) sched_join(t);
}

static const struct { int nt, no, pb, pbt, later; } shape[] = {
    { 2, 1, 4, 6, 0 }, { 2, 2, 1, 3, 0 }, { 3, 1, 1, 2, 0 }, { 4, 1, 0, 1, 1 }, { 2, 3, 0, 1, 0 }, { 3, 2, 0, 1, 0 } };
#define NSH (KEYS ? MC_T(4, 5) : MC_T(5, 6))
int mc_roots(void) { return NSH * NOPS * NOPS; }
void mc_root_name(int r, char *b, size_t n)
{
    int  s = r / NOPS / NOPS;
    snprintf(b, n, "%d threads of %d operations%s, starting with %s and %s", shape[s].nt, shape[s].no,
             shape[s].later ? " one after the other" : "", opn[r / NOPS % NOPS], opn[r % NOPS]);
}
void mc_run(int root)
{
    int  s = root / NOPS / NOPS, t, i;
    uint64_t  h = mc_h(root, 38);
    sched_fresh();
    nt = shape[s].nt; no = shape[s].no; start_later = shape[s].later;
    pb = MC_T(shape[s].pb, shape[s].pbt);
    if (KEYS && pb > 2) pb--;
    memset(inst, 0, sizeof inst); memset(stamp, 0, sizeof stamp);
    memset(allocs, 0, sizeof allocs); memset(deallocs, 0, sizeof deallocs); memset(alloced, 0, sizeof alloced);
    nobjs = 0;
    for (t = 0; t < nt; t++)
        for (i = 0; i < no; i++) {
            int  op = i > 0 || t > 1 ? mc_choose(NOPS) : t == 0 ? root / NOPS % NOPS : root % NOPS;
            prog[t][i] = op;
            h = mc_h(h, op);
        }
    sched_run(all, NULL, pb);
    for (i = 0; i < nobjs; i++) mc_check(objs[i].freed, "not-freed", "object %d is never freed", i);
    for (t = 1; t < nt; t++) mc_check(deallocs[t] == allocs[t], "not-deallocated", "thread %d has ended, its instance was deallocated %d times", t, deallocs[t]);
    if (KEYS) {
        sched_main_destructors();
        mc_check(deallocs[0] == allocs[0], "not-deallocated", "the main thread's instance was deallocated %d times", deallocs[0]);
    }
    sched_exit_process();
    mc_check(sched_live() == 0, "leak", "%zu blocks remain at process exit", sched_live());
    mc_state(h);
    mc_cover(nt == 2 ? "two threads" : start_later ? "threads one after the other" : "more threads");
}
