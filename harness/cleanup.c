/* C27: cleanup functions at process exit.  Every execution is a process that registers some
 * and then exits. */
#include <libcork/core.h>
#include <libcork/os.h>
#include <libcork/os/process.h>
#include "mc.h"
#include <limits.h>
#include <sys/mman.h>
const char *mc_harness_name = HARNESS_NAME;

#define MAXR 40
static const int  prios[] = { 0, 10, -3, INT_MIN, INT_MAX, 1 };
static struct reg { int prio, fn, named, errors, parent; }  regs[MAXR];
static int  n, err_before, err_between, exiting;
static struct { volatile int n; int fn[64]; int early; int bad; char msg[200]; }  *lg;

static void reg(int i);
static void ran(int fn)
{
    int  i;
    if (!exiting) lg->early++;
    if (lg->n < 64) lg->fn[lg->n] = fn;
    lg->n++;
    for (i = 0; i < n; i++) if (regs[i].parent == fn) reg(i);
}
static void use_errors(int fn)
{
    char  want[40];
    cork_error_set_printf(CORK_PARSE_ERROR, "cleanup %d", fn);
    cork_error_prefix_string("in ");
    snprintf(want, sizeof want, "in cleanup %d", fn);
    if (!cork_error_occurred() || cork_error_code() != CORK_PARSE_ERROR || strcmp(cork_error_message(), want) != 0) {
        lg->bad = 1;
        snprintf(lg->msg, sizeof lg->msg, "function %d sees message %.80s", fn, cork_error_message());
    }
    cork_error_clear();
}
#define F(k) static void plain##k(void) { ran(0##k); } static void err##k(void) { ran(0##k); use_errors(0##k); }
#define EIGHT(X, k)  X(k##0) X(k##1) X(k##2) X(k##3) X(k##4) X(k##5) X(k##6) X(k##7)
#define ALL(X)  EIGHT(X, 0) EIGHT(X, 1) EIGHT(X, 2) EIGHT(X, 3) EIGHT(X, 4)      /* octal */
ALL(F)
#define P(k)  plain##k,
#define E(k)  err##k,
static const cork_cleanup_function  plain[] = { ALL(P) };
static const cork_cleanup_function  errf[] = { ALL(E) };
static void reg(int i)
{
    char  name[16];
    cork_cleanup_function  f = (regs[i].errors ? errf : plain)[regs[i].fn];
    if (regs[i].named) {
        snprintf(name, sizeof name, "cleanup-%d", i);
        cork_cleanup_at_exit_named(name, regs[i].prio, f);
        memset(name, '#', sizeof name);
    } else
        cork_cleanup_at_exit(regs[i].prio, f);
    mc_step();
}

static void child(void *unused)
{
    int  i;
    exiting = 0;
    if (err_before) { cork_error_set_string(3, "early"); cork_error_clear(); }
    for (i = 0; i < n; i++) {
        if (regs[i].parent < 0) reg(i);
        if (err_between && i == 0) { cork_error_set_string(4, "between"); cork_error_clear(); }
    }
    exiting = 1;
    exit(0);
}

/* modes: 0 = few registrations, everything varies; 1 = many, order and ties; 2 = with errors;
 * 3 = functions that register others; then large numbers in patterns */
#define NP 6
#define NPAT 7
int mc_roots(void) { return 4 * NP * 2 + NPAT; }
void mc_root_name(int r, char *b, size_t sz)
{
    static const char *m[] = { "short histories", "many registrations", "functions that use errors", "functions that register others" };
    if (r >= 4 * NP * 2) snprintf(b, sz, "pattern %d", r - 4 * NP * 2);
    else snprintf(b, sz, "%s, first priority %d", m[r / NP / 2], prios[r / 2 % NP]);
}
void mc_init(void)
{ lg = mmap(NULL, sizeof *lg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static int pattern(int p, int i)
{
    switch (p) {
        case 0: return i;
        case 1: return -i;
        case 2: return 5;
        case 3: return i * 7 % 13 - 6;
        case 4: return i % 2 ? 1000 - i : i - 1000;
        case 5: return (i * 17 % 40) * 1000003;
        default: return i % 3 == 0 ? INT_MIN + i : i % 3 == 1 ? INT_MAX - i : 0;
    }
}
void mc_run(int root)
{
    int  mode = root / NP / 2, max, i, j, pending[MAXR];
    uint64_t  h;
    memset(lg, 0, sizeof *lg);
    err_before = root & 1;
    err_between = 0;
    if (mode >= 4) {
        static const int  many[] = { 9, 16, 17, 32, 33, 40 };
        n = many[mc_choose(6)];
        err_before = mc_choose(2);
        h = mc_h(root, n);
        for (i = 0; i < n; i++) {
            regs[i].prio = pattern(root - 4 * NP * 2, i); regs[i].fn = i; regs[i].named = i & 1; regs[i].errors = 0;
            regs[i].parent = n == 33 && i > 20 ? i - 20 : -1;
        }
    } else {
    max = mode == 0 ? MC_T(3, 4) : mode == 1 ? MC_T(6, 8) : mode == 2 ? MC_T(3, 4) : MC_T(3, 4);
    n = 1 + (max > 1 ? mc_choose(max) : 0);
    if (mode == 1 && n < 3) { if (n == 2 || root / 2 != NP) return; n = 0; }
    h = mc_h(mode, n * 2 + err_before);
    for (i = 0; i < n; i++) {
        int  np = mode == 1 ? 3 : NP;
        int  p = i == 0 ? root / 2 % NP : mc_choose(np);
        if (p >= np) return;
        regs[i].prio = prios[p];
        regs[i].fn = mode == 0 && i > 0 && mc_choose(2) ? 0 : i;
        regs[i].named = mode == 0 ? mc_choose(2) : i & 1;
        regs[i].errors = mode == 2 && regs[i].prio < INT_MAX ? mc_choose(2) : 0;
        regs[i].parent = mode == 3 ? mc_choose(i + 1) - 1 : -1;
        h = mc_h(h, p * 8 + regs[i].fn * 4 + regs[i].named * 2 + regs[i].errors + 64 * regs[i].parent);
    }
    if (mode == 2 && !err_before && n > 1) err_between = mc_choose(2);
    }
    mc_in_child(child, NULL);
    mc_check(lg->early == 0, "early", "a cleanup function ran before exit");
    mc_check(lg->n == n, "count", "%d cleanup functions were registered, %d ran", n, lg->n);
    /* each run must be of a registered one that hasn't run, of the lowest priority there is */
    for (i = 0; i < n; i++) pending[i] = regs[i].parent < 0;
    for (i = 0; i < n; i++) {
        int  best = -1, lowest = -1;
        for (j = 0; j < n; j++) {
            if (pending[j] != 1) continue;
            if (lowest < 0 || regs[j].prio < regs[lowest].prio) lowest = j;
            if (regs[j].fn == lg->fn[i] && (best < 0 || regs[j].prio < regs[best].prio)) best = j;
        }
        mc_check(best >= 0, "repeated", "run %d at exit is function %d, which isn't to be run", i, lg->fn[i]);
        mc_check(regs[best].prio == regs[lowest].prio, "order", "run %d at exit is function %d of priority %d, before one of priority %d", i, lg->fn[i], regs[best].prio, regs[lowest].prio);
        pending[best] = 2;
        for (j = 0; j < n; j++) if (regs[j].parent == regs[best].fn) pending[j] = 1;
    }
    mc_check(!lg->bad, "errors", "%s", lg->msg);
    mc_state(h);
    mc_cover(mode == 2 ? "with errors" : mode >= 4 ? "large numbers" : mode == 3 ? "registered at exit" : n == 0 ? "none" : "ran in order");
}
