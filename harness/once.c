/* C24: cork_once and cork_once_recursive under every interleaving. */
#include <libcork/core.h>
#include <libcork/threads.h>
#include "mc.h"
#include "mcsched.h"
const char *mc_harness_name = HARNESS_NAME;
#define QUIET __attribute__((no_sanitize("thread")))

cork_once_barrier(plain);
cork_once_barrier(other);
cork_once_barrier(rec);

enum { PLAIN, PLAIN2, REC, REC_DEEP, OTHER, REC_OVER_PLAIN, NOPS };
static const char *opn[] = { "once", "once-from-another-place", "recursive", "recursive-re-entered-twice",
    "once-on-another-barrier", "recursive-whose-call-passes-another-once" };
struct ev { int begun, ended, by; };
static struct ev  evs[3];               /* plain, other, rec */
static int  max_depth, over;

static QUIET void begin(int b)
{
    mc_check(evs[b].begun == 0, "twice", "the call of a barrier is executed twice");
    evs[b].begun++;
    evs[b].by = sched_self();
    sched_pause();
}
static QUIET void end(int b)
{
    sched_pause();
    evs[b].ended++;
}
static QUIET void passed(int b, const char *what)
{
    mc_check(evs[b].ended == 1, "continued-early", "thread %d continues after %s %s", sched_self(), what,
             evs[b].begun ? "before the call has completed" : "though nobody executed the call");
}

static void pass(int op);
static QUIET void init_plain(void) { begin(0); end(0); }
static QUIET void init_other(void) { begin(1); end(1); }
static QUIET void init_rec(int depth)
{
    int  d;
    begin(2);
    for (d = 0; d < max_depth; d++) pass(REC);
    if (over) { pass(PLAIN); passed(0, "a nested cork_once"); }
    end(2);
}

/* instrumented: the macros' own accesses are the scheduling points */
static __attribute__((noinline)) void do_plain(void) { cork_once(plain, init_plain()); }
static __attribute__((noinline)) void do_plain2(void) { cork_once(plain, init_plain()); }
static __attribute__((noinline)) void do_other(void) { cork_once(other, init_other()); }
static __attribute__((noinline)) void do_rec(void) { cork_once_recursive(rec, init_rec(0)); }

static QUIET void pass(int op)
{
    switch (op) {
        case PLAIN: do_plain(); passed(0, opn[op]); break;
        case PLAIN2: do_plain2(); passed(0, opn[op]); break;
        case OTHER: do_other(); passed(1, opn[op]); break;
        default:
            do_rec();
            if (evs[2].by == sched_self() && evs[2].begun)
                mc_cover(evs[2].ended ? "passed" : "re-entered");
            else passed(2, opn[op]);
            break;
    }
}

#define MAXT 4
#define MAXO 2
static int  nt, no, prog[MAXT][MAXO], pb;

static QUIET void body(void *vt)
{
    int  t = (int) (long) vt, i;
    for (i = 0; i < no; i++) {
        bool  mine = evs[2].begun && !evs[2].ended && evs[2].by == sched_self();
        pass(prog[t][i]);
        if (prog[t][i] >= REC && prog[t][i] != OTHER && !mine) passed(2, opn[prog[t][i]]);
    }
}
static QUIET void all(void *unused)
{
    int  t;
    for (t = 1; t < nt; t++) sched_spawn(body, (void *) (long) t);
    body((void *) 0L);
    for (t = 1; t < nt; t++) sched_join(t);
}

static const struct { int nt, no, pb, pbt; } shape[] = {
    { 2, 1, 5, 99 }, { 3, 1, 2, 3 }, { 2, 2, 2, 3 }, { 4, 1, 1, 2 }, { 3, 2, 1, 2 } };
/* quick: fewer shapes, and fewer still with the TLS emulation in the way */
#define NSH (*mc_arg ? MC_T(2, 4) : MC_T(4, 5))
int mc_roots(void) { return NSH * NOPS * NOPS; }
void mc_root_name(int r, char *b, size_t n)
{
    int  s = r / NOPS / NOPS;
    snprintf(b, n, "%d threads passing %d times, starting with %s and %s", shape[s].nt, shape[s].no,
             opn[r / NOPS % NOPS], opn[r % NOPS]);
}

static QUIET void child(void *unused)
{
    int  t, i, used[3] = { 0 };
    (void) cork_current_thread_get_id();
    sched_run(all, NULL, pb);
    for (t = 0; t < nt; t++) for (i = 0; i < no; i++) {
        int  op = prog[t][i];
        if (op == PLAIN || op == PLAIN2) used[0] = 1;
        else if (op == OTHER) used[1] = 1;
        else { used[2] = 1; if (over) used[0] = 1; }
    }
    for (i = 0; i < 3; i++)
        mc_check(evs[i].begun == used[i] && evs[i].ended == used[i], "count",
                 "a barrier's call ran %d times and ended %d times, expected %d", evs[i].begun, evs[i].ended, used[i]);
    mc_cover("completed");
}

void mc_run(int root)
{
    int  s = root / NOPS / NOPS, t, i;
    sched_fresh();
    nt = shape[s].nt; no = shape[s].no;
    pb = MC_T(shape[s].pb, shape[s].pbt);
    max_depth = over = 0;
    for (t = 0; t < nt; t++)
        for (i = 0; i < no; i++) {
            int  op = i > 0 ? mc_choose(NOPS)
                : t == 0 ? root / NOPS % NOPS : t == 1 ? root % NOPS : mc_choose(NOPS);
            prog[t][i] = op;
            if (op == REC_DEEP) max_depth = 2;
            if (op == REC_OVER_PLAIN) over = 1;
            if (op == REC && max_depth == 0) max_depth = 1;
        }
    child(NULL);
    {
        uint64_t  h = mc_h(root, nt);
        for (t = 0; t < nt; t++) for (i = 0; i < no; i++) h = mc_h(h, prog[t][i]);
        mc_state(h);
    }
}
