/* C26: the atomic operations, sequentially over boundary operands and under every interleaving. */
#include <libcork/core.h>
#include <libcork/threads.h>
#include "mc.h"
#include "mcsched.h"
#include <limits.h>
#define QUIET __attribute__((no_sanitize("thread")))   /* the harness's own accesses are no scheduling points */
const char *mc_harness_name = HARNESS_NAME;

/* ---- one type's operations behind a common face (values as uint64_t) ---- */
enum { ADD, PADD, SUB, PSUB, CAS, NOPS };
static const char *opn[] = { "add", "pre_add", "sub", "pre_sub", "cas" };
static const char *tyn[] = { "int", "uint", "size", "ptr" };
static volatile int  vi;
static volatile unsigned int  vu;
static volatile size_t  vs;
static void * volatile  vp;

#define FACE(T, pfx, var) \
    switch (op) { \
        case ADD: return (uint64_t) (T) pfx##_atomic_add(&var, (T) a); \
        case PADD: return (uint64_t) (T) pfx##_atomic_pre_add(&var, (T) a); \
        case SUB: return (uint64_t) (T) pfx##_atomic_sub(&var, (T) a); \
        case PSUB: return (uint64_t) (T) pfx##_atomic_pre_sub(&var, (T) a); \
        default: return (uint64_t) (T) pfx##_cas(&var, (T) a, (T) b); \
    }
static __attribute__((noinline)) uint64_t do_int(int op, uint64_t a, uint64_t b) { FACE(int, cork_int, vi) }
static __attribute__((noinline)) uint64_t do_uint(int op, uint64_t a, uint64_t b) { FACE(unsigned int, cork_uint, vu) }
static __attribute__((noinline)) uint64_t do_size(int op, uint64_t a, uint64_t b) { FACE(size_t, cork_size, vs) }
static __attribute__((noinline)) uint64_t do_ptr(int op, uint64_t a, uint64_t b)
{ return (uint64_t) cork_ptr_cas(&vp, (void *) a, (void *) b); }
static QUIET uint64_t run_op(int ty, int op, uint64_t a, uint64_t b)
{ return ty == 0 ? do_int(op, a, b) : ty == 1 ? do_uint(op, a, b) : ty == 2 ? do_size(op, a, b) : do_ptr(op, a, b); }
static uint64_t get(int ty)
{ return ty == 0 ? (uint64_t) vi : ty == 1 ? vu : ty == 2 ? vs : (uint64_t) vp; }
static void set(int ty, uint64_t v)
{ if (ty == 0) vi = v; else if (ty == 1) vu = v; else if (ty == 2) vs = v; else vp = (void *) v; }
static uint64_t norm(int ty, uint64_t v)
{ return ty == 0 ? (uint64_t) (int64_t) (int32_t) v : ty == 1 ? (uint32_t) v : v; }

/* the documented meaning */
static uint64_t spec(int ty, int op, uint64_t a, uint64_t b, uint64_t *v)
{
    uint64_t  old = *v, nw;
    if (op == CAS) {
        if (old == norm(ty, a)) *v = norm(ty, b);
        return old;
    }
    nw = norm(ty, (op == ADD || op == PADD) ? old + a : old - a);
    *v = nw;
    return (op == ADD || op == SUB) ? nw : old;
}

/* ---- threads ---- */
#define MAXT 3
#define MAXO 3
static int  ty, nt, no;
static struct { int op; uint64_t a, b, r; }  prog[MAXT][MAXO];

static QUIET void body(void *vt)
{
    int  t = (int) (long) vt, i;
    for (i = 0; i < no; i++)
        prog[t][i].r = run_op(ty, prog[t][i].op, prog[t][i].a, prog[t][i].b);
}
static QUIET void all(void *unused)
{
    int  t;
    for (t = 1; t < nt; t++) sched_spawn(body, (void *) (long) t);
    body((void *) 0L);
    for (t = 1; t < nt; t++) sched_join(t);
}
/* Is there an order of the operations that explains the results? */
static bool explains(int *at, uint64_t v, uint64_t final)
{
    int  t, left = 0;
    for (t = 0; t < nt; t++) {
        uint64_t  nv = v, r;
        if (at[t] == no) continue;
        left++;
        r = spec(ty, prog[t][at[t]].op, prog[t][at[t]].a, prog[t][at[t]].b, &nv);
        if (r != prog[t][at[t]].r) continue;
        at[t]++;
        if (explains(at, nv, final)) return true;
        at[t]--;
    }
    return left == 0 && v == final;
}

static const uint64_t  bv[] = { 0, 1, 2, 5, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001,
    0xfffffffe, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe,
    0xffffffffffffffff };
#define NB (sizeof bv / sizeof bv[0])

/* roots: 0..3 sequential per type; then (shape, type, first op) */
static const struct { int nt, no; } shape[] = { { 2, 2 }, { 3, 1 }, { 2, 3 }, { 3, 2 } };
#define NK 6
int mc_roots(void) { return 4 + MC_T(2, 4) * 3 * NK + MC_T(1, 4); }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < 4) snprintf(b, n, "sequential %s", tyn[r]);
    else snprintf(b, n, "threads, configuration %d", r);
}

static void pick(int t, int i, int k)
{
    static const struct { int op; uint64_t a, b; } kinds[NK] = {
        { ADD, 1, 0 }, { PADD, 3, 0 }, { SUB, 1, 0 }, { PSUB, 5, 0 }, { CAS, 0, 7 }, { CAS, 1, 0 } };
    prog[t][i].op = kinds[k].op;
    prog[t][i].a = kinds[k].a;
    prog[t][i].b = kinds[k].b;
}

void mc_run(int root)
{
    sched_fresh();
    if (root < 4) {
        uint64_t  start = norm(root, bv[mc_choose(NB)]);
        unsigned  i, j, op;
        for (op = root == 3 ? CAS : 0; op < NOPS; op++)
            for (i = 0; i < NB; i++)
                for (j = 0; j < (op == CAS ? NB : 1); j++) {
                    uint64_t  m = start, r, e;
                    set(root, start);
                    r = run_op(root, op, norm(root, bv[i]), norm(root, bv[j]));
                    e = spec(root, op, norm(root, bv[i]), norm(root, bv[j]), &m);
                    mc_check(r == e, "result", "%s %s on %#llx with %#llx,%#llx gives %#llx, expected %#llx",
                             tyn[root], opn[op], (long long) start, (long long) bv[i], (long long) bv[j],
                             (long long) r, (long long) e);
                    mc_check(get(root) == m, "value", "%s %s on %#llx with %#llx,%#llx leaves %#llx, expected %#llx",
                             tyn[root], opn[op], (long long) start, (long long) bv[i], (long long) bv[j],
                             (long long) get(root), (long long) m);
                    mc_step();
                    mc_eval(1);
                    mc_state(mc_h(mc_h(mc_h(root, op), start), mc_h(bv[i], bv[j])));
                }
        mc_cover("sequential");
    } else {
        int  t, i, at[MAXT] = { 0 }, k;
        uint64_t  init;
        root -= 4;
        if (root >= MC_T(2, 4) * 3 * NK) {       /* pointers: compare-and-swap only */
            root -= MC_T(2, 4) * 3 * NK;
            ty = 3; nt = shape[root].nt; no = shape[root].no;
            k = 4;
        } else {
            ty = root % 3; k = root / 3 % NK;
            nt = shape[root / 3 / NK].nt; no = shape[root / 3 / NK].no;
        }
        for (t = 0; t < nt; t++)
            for (i = 0; i < no; i++) {
                if (t == 0 && i == 0) pick(t, i, k);
                else if (ty == 3) pick(t, i, 4 + mc_choose(2));
                else pick(t, i, mc_choose(NK));
            }
        init = mc_choose(2) ? norm(ty, ty == 2 ? UINT64_MAX : ty == 1 ? UINT32_MAX : 1) : 0;
        set(ty, init);
        sched_run(all, NULL, 100);
        mc_check(explains(at, init, get(ty)), "atomicity",
                 "no order of the threads' %s operations explains their results (thread 0: %s -> %#llx, thread 1: %s -> %#llx, final %#llx)",
                 tyn[ty], opn[prog[0][0].op], (long long) prog[0][0].r, opn[prog[1][0].op],
                 (long long) prog[1][0].r, (long long) get(ty));
        {
            uint64_t  h = mc_h(ty, get(ty));
            for (t = 0; t < nt; t++) for (i = 0; i < no; i++) h = mc_h(h, mc_h(prog[t][i].op * 8 + prog[t][i].a, prog[t][i].r));
            mc_state(h);
        }
        mc_cover(nt == 2 ? "two threads" : "three threads");
    }
}
