/* C13: managed buffer reference counts under every interleaving of the threads using one. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/threads.h>
#include "mc.h"
#include "mcsched.h"
const char *mc_harness_name = HARNESS_NAME;
#define QUIET __attribute__((no_sanitize("thread")))

enum { REF, UNREF, SLICE, SLICE_COPY, SLICE_LIGHT, UNSLICE, CHECK, NOPS };
static const char *opn[] = { "ref", "unref", "slice", "copy-slice", "light-copy-slice", "finish-slice", "read" };
#define MAXT  3
#define MAXO  4
static int  nt, no, wrapped, depth_main;
static int  prog[MAXT][MAXO];
static struct cork_managed_buffer  *mb;
static const char  *bytes;
static volatile int  holders;          /* references and slices held by the threads */
static volatile int  freed;

static QUIET void freer(void *buf, size_t size)
{
    mc_check(holders == 0, "freed-early", "the buffer is freed while threads hold %d references", holders);
    mc_check(freed == 0, "freed-twice", "the free function runs twice");
    mc_check(buf == (void *) bytes && size == 4, "free-arguments", "the free function gets %p,%zu", buf, size);
    freed++;
}

static QUIET void alive(const char *what)
{
    mc_check(freed == 0, "used-after-free", "%s finds the buffer freed", what);
    if (!wrapped)
        mc_check(sched_is_live(mb), "used-after-free", "%s finds the buffer freed", what);
    mc_check(memcmp(mb->buf, "data", 4) == 0, "contents", "%s: contents changed", what);
}

/* Executes thread t's program; it starts with one reference of its own. */
static QUIET void body(void *vt)
{
    int  t = (int) (long) vt, i, refs = 1, ns = 0;
    struct cork_slice  sl[MAXO + 2];
    for (i = 0; i < no; i++) {
        int  rc = 0;
        switch (prog[t][i]) {
            case REF: holders++; mc_check(cork_managed_buffer_ref(mb) == mb, "ref", "ref returns another object"); refs++; break;
            case UNREF: holders--; refs--; cork_managed_buffer_unref(mb); break;
            case SLICE: holders++; rc = cork_managed_buffer_slice(&sl[ns++], mb, 1, 2); break;
            case SLICE_COPY: holders++; rc = cork_slice_copy_offset(&sl[ns], &sl[ns - 1], 0); ns++; break;
            case SLICE_LIGHT: holders++; rc = cork_slice_light_copy_offset(&sl[ns], &sl[ns - 1], 0); ns++; break;
            case UNSLICE: holders--; ns--; cork_slice_finish(&sl[ns]); break;
            default: alive("a read"); break;
        }
        mc_check(rc == 0, "rc", "%s fails", opn[prog[t][i]]);
        if (refs + ns > 0) alive(opn[prog[t][i]]);
        if (ns > 0) mc_check(sl[ns - 1].size == 2 && memcmp(sl[ns - 1].buf, "at", 2) == 0, "slice", "a slice's bytes change");
    }
    while (ns > 0) { ns--; holders--; cork_slice_finish(&sl[ns]); }
    while (refs > 0) { refs--; holders--; cork_managed_buffer_unref(mb); }
}

static QUIET void all(void *unused)
{
    int  t;
    for (t = 1; t < nt; t++) sched_spawn(body, (void *) (long) t);
    body((void *) 0L);
    for (t = 1; t < nt; t++) sched_join(t);
}

static const struct { int nt, no, pb, pbt; } shape[] = {
    { 2, 1, 9, 99 }, { 2, 2, 2, 4 }, { 3, 1, 2, 4 }, { 2, 3, 1, 2 }, { 3, 2, 1, 2 }, { 2, 4, 0, 1 } };
#define NS MC_T(4, 6)
int mc_roots(void) { return NS * 2 * NOPS * NOPS; }
void mc_root_name(int r, char *b, size_t n)
{
    r /= NOPS;
    snprintf(b, n, "%d threads of %d operations, first operation %s, %s buffer", shape[r / 2 / NOPS].nt,
             shape[r / 2 / NOPS].no, opn[r / 2 % NOPS], r & 1 ? "wrapped" : "copied");
}

void mc_init(void) { cork_free(cork_malloc(8), 8); }
void mc_run(int root)
{
    const int  second = root % NOPS;
    const int  s = root / NOPS / 2 / NOPS;
    int  t, i;
    size_t  base;
    sched_fresh();
    root /= NOPS;
    wrapped = root & 1;
    nt = shape[s].nt; no = shape[s].no;
    for (t = 0; t < nt; t++) {
        int  refs = 1, ns = 0;
        for (i = 0; i < no; i++) {
            int  op = t == 0 && i == 0 ? root / 2 % NOPS : t == 1 && i == 0 ? second : mc_choose(NOPS);
            bool  ok = (op == UNREF) ? refs > 0 : (op == UNSLICE || op == SLICE_COPY || op == SLICE_LIGHT) ? ns > 0
                : (op == REF || op == SLICE || op == CHECK) ? refs + ns > 0 : true;
            /* slicing and referencing go through the pointer: needs a reference or a slice */
            if (!ok) return;
            prog[t][i] = op;
            if (op == REF) refs++;
            if (op == UNREF) refs--;
            if (op == SLICE || op == SLICE_COPY || op == SLICE_LIGHT) ns++;
            if (op == UNSLICE) ns--;
        }
    }
    holders = freed = 0;
    base = sched_live();
    bytes = "data";
    mb = wrapped ? cork_managed_buffer_new(bytes, 4, freer) : cork_managed_buffer_new_copy(bytes, 4);
    holders = nt;
    for (t = 1; t < nt; t++) cork_managed_buffer_ref(mb);
    sched_run(all, NULL, MC_T(shape[s].pb, shape[s].pbt));
    if (wrapped) mc_check(freed == 1, "freed", "the free function ran %d times", freed);
    mc_check(sched_live() == base, "leak", "%zu blocks remain after the last reference is gone", sched_live() - base);
    {
        uint64_t  h = mc_h(root, nt);
        for (t = 0; t < nt; t++) for (i = 0; i < no; i++) h = mc_h(h, prog[t][i]);
        mc_state(h);
    }
    mc_cover(nt == 2 ? "two threads, freed once" : "three threads, freed once");
}
