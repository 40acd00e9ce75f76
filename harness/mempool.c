/* C10: memory pools. */
#include <libcork/core.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
static const int  sizes[] = { 1, 4, 8, 12, 16, 24, 40, 100 };
/* block size = room for `objs` objects + slack; objs<0: an absolute size */
static const struct { int objs, slack; }  blocks[] = { { 1, 0 }, { 1, 7 }, { 2, 0 }, { 3, 5 }, { -4096, 0 }, { -1, 0 }, { -16, 0 } };
#define NS 8
#define NB 7
#define ML 6
/* a separate root: objects larger than the default block */
#define NVERY 18       /* tens of thousands of objects, objects and blocks larger than 64 KB */
#define NMANY 6        /* many objects: sizes 4, 24, 100 with default blocks and small ones */
int mc_roots(void) { return NS * NB * 2 + 2 + NMANY + NVERY; }
void mc_root_name(int r, char *b, size_t n)
{
    if (r >= NS * NB * 2 + 2 + NMANY) { snprintf(b, n, "large numbers, kind %d", r - NS * NB * 2 - 2 - NMANY); return; }
    if (r >= NS * NB * 2 + 2) { snprintf(b, n, "500 objects, kind %d", r - NS * NB * 2 - 2); return; }
    if (r >= NS * NB * 2) { snprintf(b, n, "object of 5000 bytes, default block, callbacks=%d", r & 1); return; }
    snprintf(b, n, "element %d, block objs=%d slack=%d, callbacks=%d", sizes[r / 2 % NS], blocks[r / 2 / NS].objs, blocks[r / 2 / NS].slack, r & 1);
}
void mc_init(void) { track_install(); }

static int  es, ud, ud_freed, cb, freeing;
#define MO 6000
static struct { unsigned char *p; int inits, dones, live; unsigned char pat; bool has_pat; }  ob[MO];
static int  nob, nlive_inits;
static unsigned char  patn;

static int lookup(void *p, bool create)
{
    int  i;
    for (i = 0; i < nob; i++) if (ob[i].p == p) return i;
    if (!create) return -1;
    if (nob == MO) mc_internal("too many objects");
    memset(&ob[nob], 0, sizeof ob[nob]);
    ob[nob].p = p;
    return nob++;
}
static void fill(int i, unsigned char pat) { memset(ob[i].p, pat, es); ob[i].pat = pat; ob[i].has_pat = true; }
static bool intact(int i)
{
    int  k;
    for (k = 0; k < es; k++) if (ob[i].p[k] != ob[i].pat) return false;
    return true;
}
static void init_object(void *u, void *o)
{
    int  i;
    mc_check(u == &ud, "userdata", "init_object got the wrong user data");
    i = lookup(o, true);
    mc_check(ob[i].inits == 0, "init-twice", "object initialised twice");
    ob[i].inits++;
    fill(i, ++patn);
}
static void done_object(void *u, void *o)
{
    int  i;
    mc_check(u == &ud, "userdata", "done_object got the wrong user data");
    mc_check(freeing, "done-early", "object finalised before the pool was freed");
    i = lookup(o, false);
    mc_check(i >= 0 && ob[i].inits == 1, "done-uninit", "finaliser run on an object that was never initialised");
    mc_check(ob[i].dones == 0, "done-twice", "object finalised twice");
    mc_check(intact(i), "contents", "contents of a free object changed");
    ob[i].dones++;
}
static int  ud0, ud0_freed;
static void free_ud0(void *u) { mc_check(u == &ud0, "userdata-free", "replaced user data freed wrongly"); ud0_freed++; }
static void free_ud(void *u) { mc_check(u == &ud && freeing, "userdata-free", "user data freed wrongly"); ud_freed++; }

static struct cork_mempool  *mp;
static void die(void *x)
{
    struct rlimit  rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    freeing = 1;
    cb = 0;
    cork_mempool_free(mp);
}

static void one_new(size_t align, int step)
{
    unsigned char  *p;
    int  i, avail = 0;
    unsigned long  before = track_total();
    for (i = 0; i < nob; i++) avail += !ob[i].live;
    p = cork_mempool_new_object(mp);
    mc_check(p != NULL && (uintptr_t) p % align == 0, "alignment", "object %d of size %d at %p", step, es, p);
    if (avail) mc_check(track_total() == before, "no-reuse", "a new block was allocated although %d objects are free", avail);
    if (cb || avail) mc_check(lookup(p, false) >= 0, "not-initialised", "object handed out without initialisation");
    i = lookup(p, true);
    mc_check(!ob[i].live, "live-twice", "a live object was handed out again");
    if (ob[i].has_pat) mc_check(intact(i), "contents", "reused object lost its contents");
    ob[i].live = 1;
    fill(i, ++patn);
    mc_step();
}
static void one_free(int i)
{
    if (!ob[i].live) return;
    mc_check(intact(i), "contents", "contents of live object %d changed", i);
    cork_mempool_free_object(mp, ob[i].p);
    ob[i].live = 0;
    mc_step();
}
static int by_place(const void *a, const void *b) { const unsigned char *const *x = a, *const *y = b; return *x < *y ? -1 : *x > *y; }
static void many(int r)
{
    static const int  sz[] = { 4, 24, 100 };
    enum { N = 500 };
    static unsigned char  *places[MO];
    size_t  base = track_live(), align;
    int  i, phase, pat = mc_choose(5), nl = 0, how;
    bool  doneless;
    es = sz[r % 3];
    cb = mc_choose(2);
    nob = 0; patn = 0; ud_freed = 0; freeing = 0; ud0_freed = 0;
    for (align = 1; align < sizeof(void *) && es % (align * 2) == 0; ) align *= 2;
    mp = r < 3 ? cork_mempool_new_size(es) : cork_mempool_new_size_ex(es, 8 + 3 * (8 + es));
    how = mc_choose(6);
    doneless = false;
    if (cb) switch (how) {
        case 0: cork_mempool_set_callbacks(mp, &ud, free_ud, init_object, done_object); break;
        case 1: cork_mempool_set_user_data(mp, &ud0, free_ud0); cork_mempool_set_callbacks(mp, &ud, free_ud, init_object, done_object); break;
        case 2: cork_mempool_set_user_data(mp, &ud0, free_ud0); cork_mempool_set_init_object(mp, init_object); cork_mempool_set_done_object(mp, done_object); cork_mempool_set_user_data(mp, &ud, free_ud); break;
        case 3: cork_mempool_set_init_object(mp, init_object); cork_mempool_set_user_data(mp, &ud, NULL); doneless = true; break;
        case 4: cork_mempool_set_callbacks(mp, &ud, free_ud, init_object, NULL); doneless = true; break;
        case 5: cork_mempool_set_callbacks(mp, &ud0, free_ud0, NULL, NULL); cork_mempool_set_user_data(mp, &ud, NULL); cork_mempool_set_init_object(mp, init_object); doneless = true; break;
    } else {
        if (how > 2) return;
        if (how > 0) cork_mempool_set_user_data(mp, &ud0, free_ud0);
        if (how > 1) cork_mempool_set_user_data(mp, &ud, free_ud);
    }
    mc_check(ud0_freed == (cb ? how == 1 || how == 2 || how == 5 : how == 2), "userdata-free", "replaced user data was freed %d times", ud0_freed);
    for (i = 0; i < N; i++) one_new(align, i);
    for (phase = 0; phase < 2; phase++) {
        switch (pat) {
            case 0: for (i = 0; i < nob; i += 2) one_free(i); break;
            case 1: for (i = nob - 1; i >= 0; i--) one_free(i); break;
            case 2: for (i = 0; i < nob; i++) one_free(i); break;
            case 3: for (i = nob / 2; i < nob; i++) one_free(i); break;
            case 4: for (i = 0; i < nob; i++) if (i % 3) one_free(i); break;
        }
        for (i = 0; i < nob; i++) if (ob[i].live || ob[i].has_pat) mc_check(intact(i), "contents", "contents of object %d changed", i);
        for (i = 0; i < (phase ? N / 4 : N / 2); i++) one_new(align, i);
    }
    for (i = 0; i < nob; i++) { places[i] = ob[i].p; nl += ob[i].live; }
    qsort(places, nob, sizeof *places, by_place);
    for (i = 1; i < nob; i++) mc_check(places[i - 1] + es <= places[i], "overlap", "objects overlap");
    mc_state(mc_h(r * 5 + pat, nl));
    for (i = 0; i < nob; i++) one_free(i);
    freeing = 1;
    cork_mempool_free(mp);
    if (cb) for (i = 0; i < nob; i++) mc_check(ob[i].dones == !doneless, "done-missing", "an initialised object was finalised %d times", ob[i].dones);
    mc_check(ud_freed == (cb ? how < 3 || how == 4 : how == 2), "userdata-free", "user data freed %d times", ud_freed);
    mc_check(ud0_freed == (cb ? how == 1 || how == 2 || how == 5 : how >= 1), "userdata-free", "the first user data was freed %d times", ud0_freed);
    mc_check(track_live() == base, "leak", "the pool leaves %zu blocks behind", track_live() - base);
}

/* ---- very many objects, very large ones ---- */
static long  v_inits, v_dones;
static void v_init(void *u, void *o) { (void) u; v_inits++; memset(o, 0x3c, es); }
static void v_done(void *u, void *o) { (void) u; (void) o; v_dones++; }
static void very(int r)
{
    static const struct { int es, n; size_t bsz; }  k[NVERY] = {
        { 4, 255, 0 }, { 4, 256, 0 }, { 4, 257, 0 }, { 24, 65535, 0 }, { 24, 65536, 0 }, { 4, 65537, 0 }, { 8, 70000, 65536 }, { 8, 131072, 0 },
        { 65536, 3, 0 }, { 65535, 3, 0 }, { 70000, 5, 0 }, { 65528, 5, 0 }, { 300, 1000, 65536 }, { 300, 1000, 65540 }, { 300, 1000, 200000 }, { 5000, 100, 131072 }, { 100000, 9, 300000 }, { 40, 9000, 100001 } };
    int  n = k[r].n, i, left, st;
    size_t  base = track_live();
    unsigned char  **p = malloc((n + 1) * sizeof *p), **q;
    es = k[r].es;
    cb = mc_choose(2);
    left = mc_choose(4);
    v_inits = v_dones = 0;
    mp = k[r].bsz ? cork_mempool_new_size_ex(es, k[r].bsz) : cork_mempool_new_size(es);
    if (cb) cork_mempool_set_callbacks(mp, NULL, NULL, v_init, v_done);
    mc_log("%d objects of %d bytes%s", n, es, left == 1 ? ", half of them given back and taken again" : left == 2 ? ", free with all of them in use" : left == 3 ? ", free with the last one in use" : "");
    for (i = 0; i < n; i++) {
        p[i] = cork_mempool_new_object(mp);
        if (cb) mc_check(p[i][0] == 0x3c && p[i][es - 1] == 0x3c, "not-initialised", "object %d of %d isn't initialised", i, n);
        memset(p[i], i * 7 + (i >> 8), es);
    }
    if (left == 1) {
        for (i = 0; i < n; i += 2) cork_mempool_free_object(mp, p[i]);
        for (i = 0; i < n; i += 2) { p[i] = cork_mempool_new_object(mp); memset(p[i], i * 7 + (i >> 8), es); }
    }
    for (i = 0; i < n; i++) mc_check(p[i][0] == (unsigned char) (i * 7 + (i >> 8)) && p[i][es - 1] == p[i][0], "contents", "contents of object %d of %d changed", i, n);
    q = malloc((n + 1) * sizeof *q);
    memcpy(q, p, n * sizeof *p);
    qsort(q, n, sizeof *q, by_place);
    for (i = 1; i < n; i++) mc_check(q[i - 1] + es <= q[i], "overlap", "objects overlap");
    free(q);
    if (left >= 2) {
        if (left == 3) for (i = 0; i < n - 1; i++) cork_mempool_free_object(mp, p[i]);
        st = mc_in_child_raw(die, NULL);
        mc_check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "free-with-live", "freeing a pool with %d live objects goes on (status %#x)", left == 3 ? 1 : n, st);
        for (i = left == 3 ? n - 1 : 0; i < n; i++) cork_mempool_free_object(mp, p[i]);
    } else for (i = n - 1; i >= 0; i--) cork_mempool_free_object(mp, p[i]);
    cork_mempool_free(mp);
    mc_check(v_inits == v_dones && (!cb || v_inits >= n), "done-missing", "%ld objects initialised, %ld finalised", v_inits, v_dones);
    free(p);
    mc_steps(n);
    mc_state(mc_h(r, left));
    mc_check(track_live() == base, "leak", "the pool leaves %zu blocks behind", track_live() - base);
}
void mc_run(int root)
{
    int  d, i, j, depth, live[ML], nlive = 0, ids[ML];
    size_t  base = track_live(), bsz = 0, align;
    unsigned long  before;
    bool  big = root >= NS * NB * 2;
    if (root >= NS * NB * 2 + 2 + NMANY) { very(root - NS * NB * 2 - 2 - NMANY); return; }
    if (root >= NS * NB * 2 + 2) { many(root - NS * NB * 2 - 2); return; }
    cb = root & 1;
    nob = 0; patn = 0; ud_freed = 0; freeing = 0;
    depth = MC_T(8, 10);
    if (big) {
        es = 5000;
        mp = cork_mempool_new_size(es);
        depth = 5;
    } else {
        int  b = root / 2 / NS;
        es = sizes[root / 2 % NS];
        bsz = blocks[b].objs < 0 ? (size_t) -blocks[b].objs : (size_t) (8 + blocks[b].objs * (8 + es) + blocks[b].slack);
        if (blocks[b].objs == -4096) depth = MC_T(4, 6);
        mp = (bsz == 4096) ? cork_mempool_new_size(es) : cork_mempool_new_size_ex(es, bsz);
    }
    for (align = 1; align < sizeof(void *) && es % (align * 2) == 0; ) align *= 2;
    if (cb) {
        if (depth & 1) cork_mempool_set_callbacks(mp, &ud, free_ud, init_object, done_object);
        else {
            cork_mempool_set_user_data(mp, &ud, free_ud);
            cork_mempool_set_init_object(mp, init_object);
            cork_mempool_set_done_object(mp, done_object);
        }
    }
    for (d = 0; d < depth; d++) {
        int  op = mc_choose(1 + nlive);
        uint64_t  h = root;
        mc_step();
        if (op == 0 && nlive < ML) {
            unsigned char  *p;
            int  avail = 0;
            for (i = 0; i < nob; i++) avail += !ob[i].live;
            before = track_total();
            p = cork_mempool_new_object(mp);
            mc_log("new -> object %d", lookup(p, false));
            mc_crash_key("new-object");
            mc_check(p != NULL && (uintptr_t) p > 4096, "bogus", "new_object returned %p (element size %d, block size %zu)", p, es, bsz);
            mc_check((uintptr_t) p % align == 0, "alignment", "object of size %d at %p is not %zu-aligned", es, p, align);
            if (avail) {
                mc_check(track_total() == before, "no-reuse", "a new block was allocated although %d objects are free", avail);
                mc_cover("reuse");
            }
            if (cb || avail) mc_check(lookup(p, false) >= 0, cb ? "not-initialised" : "no-reuse", cb ? "object handed out without initialisation" : "a free object was not reused");
            i = lookup(p, true);
            mc_check(!ob[i].live, "live-twice", "a live object was handed out again");
            for (j = 0; j < nlive; j++)
                mc_check(p + es <= ob[ids[j]].p || ob[ids[j]].p + es <= p, "overlap", "objects overlap");
            if (ob[i].has_pat) mc_check(intact(i), "contents", "reused object lost its contents");
            ob[i].live = 1;
            fill(i, ++patn);
            ids[nlive] = i;
            live[nlive++] = i;
        } else if (op > 0) {
            i = live[op - 1];
            mc_log("free object %d", i);
            mc_check(intact(i), "contents", "contents of a live object changed");
            cork_mempool_free_object(mp, ob[i].p);
            ob[i].live = 0;
            memmove(live + op - 1, live + op, (nlive - op) * sizeof *live);
            nlive--;
            memcpy(ids, live, sizeof live);
        }
        for (j = 0; j < nlive; j++) mc_check(intact(live[j]), "contents", "contents of live object %d changed", live[j]);
        for (j = 0; j < nob; j++) if (!ob[j].live && ob[j].has_pat) mc_check(intact(j), "contents", "contents of free object %d changed", j);
        for (j = 0; j < nob && j < 12; j++) h = mc_h(h, ob[j].live + 1);
        mc_state(mc_h(h, nob));
    }
    if (nlive && mc_exec_index() % 64 == 0) {
        int  st = mc_in_child_raw(die, NULL);
        mc_check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "free-live", "freeing a pool with live objects did not abort");
        mc_cover("free-with-live-aborts");
    }
    while (nlive > 0) { nlive--; ob[live[nlive]].live = 0; cork_mempool_free_object(mp, ob[live[nlive]].p); }
    freeing = 1;
    cork_mempool_free(mp);
    if (cb) {
        for (i = 0; i < nob; i++) mc_check(ob[i].dones == 1, "done-missing", "an initialised object was finalised %d times", ob[i].dones);
        mc_check(ud_freed == 1, "userdata-free", "user data freed %d times", ud_freed);
    }
    mc_check(track_live() == base, "leak", "the pool leaves %zu blocks behind", track_live() - base);
}
