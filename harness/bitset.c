/* C09: bitset against an array of booleans. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
/* roots: all bit counts 0..MAXN at depth 2; small ones closed over the whole state space */
#define MAXN 72
static const int  large[] = { 127, 128, 129, 255, 256, 257, 263, 264, 265, 1023, 1024, 1025, 4095, 65535, 65536, 65537, 70001, 524289 };    /* the last one: one operation */
#define NLARGE 18
int mc_roots(void) { return MAXN + 1 + MC_T(11, 14) + NLARGE; }
#define is_large(r) ((r) >= MAXN + 1 + MC_T(11, 14))
#define large_n(r)  large[(r) - (MAXN + 1 + MC_T(11, 14))]
void mc_root_name(int r, char *b, size_t s)
{ if (is_large(r)) snprintf(b, s, "%d bits", large_n(r)); else if (r <= MAXN) snprintf(b, s, "%d bits", r); else snprintf(b, s, "%d bits, all states", r - MAXN - 1); }
void mc_init(void) { track_install(); mc_unpruned = MC_T(4, 5); }
static unsigned char  m[530000];
#define HUGE_N  2000
static size_t  near_i;
static size_t  N;
static void verify(struct cork_bitset *s)
{
    size_t  i;
    mc_check(s->bit_count == N, "bit-count", "bit_count is %zu, expected %zu", s->bit_count, N);
    for (i = 0; i < N; i++) {
        if (N > HUGE_N && near_i < N && i > 70 && i < N - 70 && i % 65536 > 20 && (i > near_i + 70 || i + 70 < near_i) && i % 251) continue;
        mc_check(!!cork_bitset_get(s, i) == m[i], "bit", "bit %zu of %zu is %d, expected %d", i, N, !!cork_bitset_get(s, i), m[i]);
    }
}
static size_t spot(int k)         /* the bits of a huge set that are set: around its ends, and multiples of powers of two */
{
    static const size_t  c[] = { 0, 7, 256, 32768, 65535, 65536, 65543, 70000, 524287, 524288 };
    return c[k] < N ? c[k] : N - 1 - k % 9;
}
void mc_run(int root)
{
    bool  closed = root > MAXN && !is_large(root);
    int  depth, d;
    struct cork_bitset  st, *s = &st;
    size_t  base = track_live(), i;
    static const long  vals[] = { 1, 0, 2, 256, -1 };
    N = closed ? root - MAXN - 1 : root;
    depth = closed ? N + 2 : (N <= (size_t) MC_T(16, 24) ? 3 : 2);
    if (is_large(root)) { N = large_n(root); depth = N > HUGE_N && N < 100000 ? 2 : 1; }
    memset(m, 0, N);
    near_i = N;
    if (root & 1) cork_bitset_init(s, N); else s = cork_bitset_new(N);
    verify(s);
    if (is_large(root)) {      /* every bit on, then single changes */
        int  full = mc_choose(2);
        for (i = 0; full && i < N; i++) { cork_bitset_set(s, i, true); m[i] = 1; mc_step(); }
        verify(s);
    }
    for (d = 0; d < depth; d++) {
        uint64_t  h = N;
        int  op = mc_choose(N > HUGE_N ? 10 * 2 + 1 : N * 2 + 1);
        mc_step();
        if (op == (N > HUGE_N ? 20 : (int) N * 2)) {
            mc_log("clear");
            cork_bitset_clear(s);
            memset(m, 0, N);
            near_i = N;
        } else {
            /* value: 0, or one of several true values */
            long  v = op & 1 ? 0 : vals[(op / 2 + d) % 5 == 1 ? 0 : (op / 2 + d) % 5];
            i = N > HUGE_N ? spot(op / 2) : (size_t) op / 2;
            if (v == 0 && !(op & 1)) v = 1;
            mc_log("set(%zu, %ld)", i, v);
            cork_bitset_set(s, i, v);
            m[i] = v != 0;
            near_i = i;
        }
        verify(s);
        h = N > HUGE_N ? mc_h(mc_h(h, near_i), op) : mc_hbuf(h, m, N);
        if (closed) { if (mc_seen(h, depth - d - 1)) break; } else mc_state(h);
    }
    if (root & 1) cork_bitset_done(s); else cork_bitset_free(s);
    mc_check(track_live() == base, "leak", "bitset leaves memory behind");
}
