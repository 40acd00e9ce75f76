/* C08: ring buffer against a bounded queue. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
#define MAXCAP 70000
static const int  caps[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 1000, 65535, 65536, 65537, 70000 };
#define NC 23
int mc_roots(void) { return 2 * NC; }
void mc_root_name(int r, char *b, size_t s) { snprintf(b, s, "capacity %d (%s)", caps[r / 2], r & 1 ? "init" : "new"); }
void mc_init(void) { track_install(); }
void mc_run(int root)
{
    int  cap = caps[root / 2], n = 0, d, i, depth = MC_T(14, 18), serial = 0, run;
    static void  *qb[2 * MAXCAP + 64];
    void  **q = qb;
    struct cork_ring_buffer  st, *r = &st;
    size_t  base = track_live();
    if (root & 1) mc_check(cork_ring_buffer_init(r, cap) == 0, "init", "init failed");
    else r = cork_ring_buffer_new(cap);
    /* a larger buffer is first brought to a position around its boundaries */
    if (cap > 9) {
        int  fill, adv;
        run = mc_choose(6);
        adv = run < 3 ? cap - 1 - run : run - 3;          /* elements already taken out */
        fill = mc_choose(2) ? cap - 2 : 0;
        for (i = 0; i < adv + fill; i++) {
            void  *v = (void *) (uintptr_t) (0x1000 + serial++);
            mc_check(cork_ring_buffer_add(r, v) == 0, "add-result", "add refused with %d of %d", n, cap);
            q[n++] = v;
            if (i < adv) { mc_check(cork_ring_buffer_pop(r) == q[0], "pop", "pop wrong while filling"); q++; n--; }
        }
        depth = cap > 1000 ? MC_T(4, 5) : cap > 64 ? MC_T(7, 9) : MC_T(10, 13);
    }
    for (d = 0; ; d++) {
        uint64_t  h = cap;
        mc_check(!!cork_ring_buffer_is_empty(r) == (n == 0), "empty", "is_empty wrong with %d of %d", n, cap);
        mc_check(!!cork_ring_buffer_is_full(r) == (n == cap), "full", "is_full wrong with %d of %d", n, cap);
        mc_check(cork_ring_buffer_peek(r) == (n ? q[0] : NULL), "peek", "peek wrong with %d of %d elements", n, cap);
        mc_check(cork_ring_buffer_peek(r) == (n ? q[0] : NULL), "peek", "second peek differs");
        for (i = 0; i < n && i < 1000; i++) h = mc_h(h, q[i] != NULL);
        mc_state(mc_h(h, serial));
        if (d == depth) break;
        mc_step();
        switch (mc_choose(2)) {
            case 0: {
                int  rc;
                void  *v = (d % 5 == 3) ? NULL : (void *) (uintptr_t) (0x1000 + serial++);
                mc_log("add(%p)", v);
                rc = cork_ring_buffer_add(r, v);
                mc_check(rc == (n < cap ? 0 : -1), "add-result", "add returned %d with %d of %d", rc, n, cap);
                if (n < cap) q[n++] = v; else mc_cover("add-refused");
                break;
            }
            case 1: {
                void  *v = cork_ring_buffer_pop(r);
                mc_log("pop -> %p", v);
                mc_check(v == (n ? q[0] : NULL), "pop", "pop returned %p with %d of %d elements", v, n, cap);
                if (n) { q++; n--; } else mc_cover("pop-empty");
                break;
            }
        }
    }
    if (cap > 1000) while (n) { mc_check(cork_ring_buffer_pop(r) == *q, "pop", "pop wrong with %d of %d elements", n, cap); q++; n--; }
    if (root & 1) cork_ring_buffer_done(r); else cork_ring_buffer_free(r);
    mc_check(track_live() == base, "leak", "ring buffer leaves memory behind");
}
