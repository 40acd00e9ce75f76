/* C03: reference counting with cycle collection against reachability. */
#include <libcork/core.h>
#include <libcork/helpers/gc.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;

#define MAXN 4
#define NPRE 8
/* root: nodes, first byte of the adjacency matrix, possible roots already pending */
struct cfg { int n, chunk, nchunk, pre, budget; };
static struct cfg  cfgs[2000];
static int  ncfg;
static void add(int n, int nchunk, int pre, int budget)
{
    int  i;
    for (i = 0; i < nchunk; i++) { struct cfg  c = { n, i, nchunk, pre, budget }; cfgs[ncfg++] = c; }
}
static void setup(void)
{
    int  p;
    if (ncfg) return;
    add(1, 1, 0, 3);
    add(2, 1, 0, MC_T(3, 4));
    add(3, 16, 0, MC_T(1, 2));
    add(4, 64, 0, MC_T(0, 1));
    for (p = 1; p <= NPRE; p++) {
        add(1, 1, p, 1);
        add(2, 2, p, MC_T(1, 2));
        add(3, MC_T(8, 16), p, MC_T(0, 1));
    }
    if (mc_thorough) for (p = 1; p <= NPRE; p++) add(4, 128, p, 0);
}
#define NBIG 9
static const char  *bign[NBIG] = { "a ring", "a doubly linked ring", "a star and back", "a complete graph", "a chain", "a chain with a ring at its end",
    "two rings, one way", "a scattered graph", "a tree with parent links" };
/* objects that own others without the collector knowing, and release them when they're freed */
#define NHPRE 5
static const int  hpre[NHPRE] = { 0, 1020, 1021, 1022, 1023 };
#define NHID (NHPRE * 8)
int mc_roots(void) { setup(); return ncfg + NBIG + NHID + 2; }
void mc_root_name(int r, char *b, size_t s)
{
    setup();
    if (r == ncfg + NBIG + NHID + 1) { snprintf(b, s, "many references"); return; }
    if (r == ncfg + NBIG + NHID) { snprintf(b, s, "many small rings"); return; }
    if (r >= ncfg + NBIG) { snprintf(b, s, "releases in free callbacks, %d pending roots, graphs %d/8", hpre[(r - ncfg - NBIG) / 8], (r - ncfg - NBIG) % 8); return; }
    if (r >= ncfg) { snprintf(b, s, "%s of 30 to 600 nodes", bign[r - ncfg]); return; }
    snprintf(b, s, "%d nodes, graphs %d/%d, %d pending roots, %d extra operations", cfgs[r].n, cfgs[r].chunk, cfgs[r].nchunk, cfgs[r].pre ? 1025 - cfgs[r].pre : 0, cfgs[r].budget);
}
void mc_init(void) { setup(); track_install(); }

struct node { int id; unsigned magic; struct node  *kid[MAXN + 1]; };
static struct node  *obj[MAXN];
static int  N, freed[MAXN], ext[MAXN], edge[MAXN][MAXN + 1], shared[MAXN], refs[MAXN], gone[MAXN];

static void node_free(void *p)
{
    struct node  *n = p;
    mc_check(n->magic == 0xfeed1234u + n->id, "free-garbled", "free callback for something that is not a live node");
    mc_check(!freed[n->id], "free-twice", "object %d freed twice", n->id);
    freed[n->id]++;
    n->magic = 0xdead0000u;
    mc_log("  freed %d", n->id);
}
static void node_recurse(struct cork_gc *gc, void *p, cork_gc_recurser r, void *ud)
{
    struct node  *n = p;
    int  i;
    mc_check(n->magic == 0xfeed1234u + n->id && !freed[n->id], "use-after-free", "the collector visits an object that was freed");
    for (i = 0; i <= N; i++) r(gc, n->kid[i], ud);
}
static struct cork_gc_obj_iface  full = { node_free, node_recurse };
static struct cork_gc_obj_iface  norec = { node_free, NULL };

struct dummy { int x; };
_gc_leaf_(dummy);
#define ND 1300
static struct dummy  *dum[ND];

static bool reach[MAXN];
static void mark(int i)
{
    int  k;
    if (reach[i]) return;
    reach[i] = true;
    for (k = 0; k <= N; k++) if (edge[i][k] >= 0) mark(edge[i][k]);
}
static void verify(const char *when)
{
    int  i;
    memset(reach, 0, sizeof reach);
    for (i = 0; i < N; i++) if (ext[i] > 0) mark(i);
    for (i = 0; i < N; i++) {
        if (!reach[i]) continue;
        mc_check(!freed[i], "freed-reachable", "object %d is still reachable but was freed (%s)", i, when);
        mc_check(obj[i]->magic == 0xfeed1234u + i && obj[i]->id == i, "garbled", "reachable object %d was overwritten", i);
    }
}
/* one reference to i goes away; sure: whatever held it is certainly gone too */
static void drop(int i, bool sure)
{
    int  k;
    if (--refs[i] > 0) return;
    gone[i] = 1;
    if (shared[i]) sure = false;
    if (sure) gone[i] = 2;
    for (k = 0; k <= N; k++) if (edge[i][k] >= 0) drop(edge[i][k], sure);
}
static void check_gone(void)
{
    int  i;
    for (i = 0; i < N; i++)
        if (gone[i] == 2)
            mc_check(freed[i], "not-at-once", "object %d lost its only reference but was not freed", i);
}
static void take(int i) { if (++refs[i] > 1) shared[i] = 1; }

static void set_edge(int i, int slot, int to)
{
    struct node  *old = obj[i]->kid[slot];
    int  o = edge[i][slot];
    if (to >= 0) {
        take(to);
        obj[i]->kid[slot] = cork_gc_incref(obj[to]);
        mc_check(obj[i]->kid[slot] == obj[to], "incref-result", "incref returned another pointer");
    } else obj[i]->kid[slot] = NULL;
    edge[i][slot] = to;
    if (o >= 0) { drop(o, true); cork_gc_decref(old); }
}

static void pressure(int n)
{
    int  i;
    for (i = 0; i < n; i++) { cork_gc_incref(dum[i]); cork_gc_decref(dum[i]); }
}

/* ---- larger graphs, in shapes ---- */
enum { MAXB = 600, MAXK = 30 };
struct big { unsigned magic; int id, nkids; struct big  *kid[MAXK]; };
static struct big  *bo[MAXB];
static int  bkids[MAXB][MAXK], bnk[MAXB], bfreed[MAXB], bext[MAXB], bn;
static bool  breach[MAXB];
static void big_free(void *p)
{
    struct big  *n = p;
    mc_check(n->magic == 0xbeef0000u + n->id, "free-garbled", "free callback for something that is not a live node");
    mc_check(!bfreed[n->id], "free-twice", "object %d freed twice", n->id);
    bfreed[n->id]++;
    n->magic = 0;
}
static void big_recurse(struct cork_gc *gc, void *p, cork_gc_recurser r, void *ud)
{
    struct big  *n = p;
    int  i;
    mc_check(n->magic == 0xbeef0000u + n->id, "use-after-free", "the collector visits an object that was freed");
    for (i = 0; i < n->nkids; i++) r(gc, n->kid[i], ud);
}
static struct cork_gc_obj_iface  bigi = { big_free, big_recurse };
static void link_to(int a, int b)
{
    if (bnk[a] == MAXK) mc_internal("too many edges");
    bkids[a][bnk[a]++] = b;
    bo[a]->kid[bo[a]->nkids] = cork_gc_incref(bo[b]);
    bo[a]->nkids++;
}
static void big_verify(const char *when)
{
    static int  todo[MAXB];
    int  i, k, nt = 0;
    memset(breach, 0, sizeof breach);
    for (i = 0; i < bn; i++) if (bext[i]) { breach[i] = true; todo[nt++] = i; }
    while (nt > 0) { i = todo[--nt]; for (k = 0; k < bnk[i]; k++) if (!breach[bkids[i][k]]) { breach[bkids[i][k]] = true; todo[nt++] = bkids[i][k]; } }
    for (i = 0; i < bn; i++) if (breach[i]) {
        mc_check(!bfreed[i], "freed-reachable", "object %d is still reachable but was freed (%s)", i, when);
        mc_check(bo[i]->magic == 0xbeef0000u + i && bo[i]->nkids == bnk[i], "garbled", "reachable object %d was overwritten", i);
    }
}
static void big(int shape)
{
    static const int  sizes[] = { 30, 150, 600 };
    size_t  base = track_live();
    int  i, k, order, force;
    bn = shape == 3 ? 25 : sizes[mc_choose(3)];
    order = mc_choose(4);      /* which external reference stays longest */
    force = mc_choose(2);      /* collect in between */
    memset(bfreed, 0, sizeof bfreed);
    memset(bnk, 0, sizeof bnk);
    cork_gc_init();
    if (force) for (i = 0; i < ND; i++) { dum[i] = cork_gc_new(dummy); dum[i]->x = i; }
    for (i = 0; i < bn; i++) {
        bo[i] = cork_gc_alloc(sizeof(struct big), &bigi);
        memset(bo[i], 0, sizeof *bo[i]);
        bo[i]->id = i; bo[i]->magic = 0xbeef0000u + i; bext[i] = 1;
    }
    for (i = 0; i < bn; i++)
        switch (shape) {
            case 0: link_to(i, (i + 1) % bn); break;
            case 1: link_to(i, (i + 1) % bn); link_to((i + 1) % bn, i); break;
            case 2: if (i) { link_to(i, i < MAXK ? 0 : i % MAXK); if (i < MAXK) link_to(0, i); } break;
            case 3: for (k = 0; k < bn; k++) link_to(i, k); break;
            case 4: if (i) link_to(i - 1, i); break;
            case 5: link_to(i, i + 1 < bn ? i + 1 : bn / 2); break;
            case 6: if (i < bn / 2) link_to(i, (i + 1) % (bn / 2)); else link_to(i, i + 1 < bn ? i + 1 : bn / 2); if (i % 5 == 0 && i < bn / 2) link_to(i, bn / 2 + i); break;
            case 7: link_to(i, i * 7 % bn); link_to(i, (i * i + 3) % bn); if (i % 3 == 0) link_to(i, i); break;
            case 8: if (i) { link_to((i - 1) / 2, i); link_to(i, (i - 1) / 2); } break;
        }
    big_verify("after building");
    for (i = 0; i < bn; i++) {
        k = order == 0 ? i : order == 1 ? bn - 1 - i : order == 2 ? (i + bn / 2) % bn : (i % 2 ? bn - 1 - i / 2 : i / 2);
        bext[k]--;
        cork_gc_decref(bo[k]);
        mc_step();
        if (i < 3 || i > bn - 4 || i % 50 == 0) big_verify("after a decref");
        if (force && (i == bn / 3 || i >= bn - 2)) { pressure(ND); big_verify("after a forced collection"); }
    }
    if (force) for (i = 0; i < ND; i++) cork_gc_decref(dum[i]);
    for (i = k = 0; i < bn; i++) k += bfreed[i];
    mc_state(mc_h(shape * 64 + order * 8 + force, k));
    cork_gc_done();
    for (i = 0; i < bn; i++) mc_check(bfreed[i] == 1, "never-freed", "object %d of %d is unreachable but was not freed by cork_gc_done", i, bn);
    mc_check(track_live() == base, "leak", "%zu blocks left after cork_gc_done", track_live() - base);
    mc_cover("larger graphs");
}

/* Three objects, any references between them that the collector can see, and others that it can't:
 * those are dropped by the owner's free callback, which can happen in the middle of anything. */
static int  hid[3];
static void hid_free(void *p)
{
    struct node  *n = p;
    int  id = n->id;
    node_free(p);
    if (hid[id] >= 0) { mc_log("  (free callback of %d drops %d)", id, hid[id]); cork_gc_decref(obj[hid[id]]); }
}
static struct cork_gc_obj_iface  hidi = { hid_free, node_recurse };
static int hid_alive(bool *alive)
{
    int  i, n, last = -1;
    for (i = 0; i < N; i++) alive[i] = true;
    for (;;) {
        memset(reach, 0, sizeof reach);
        for (i = 0; i < N; i++) if (ext[i] > 0) mark(i);
        for (i = 0; i < N; i++) if (alive[i] && hid[i] >= 0) mark(hid[i]);
        for (i = n = 0; i < N; i++) n += alive[i] = reach[i];
        if (n == last) return n;
        last = n;
    }
}
static void hidden(int k)
{
    static const int  perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    static const int  bit[3][3] = { { -1, 0, 1 }, { 2, -1, 3 }, { 4, 5, -1 } };
    static struct dummy  *pre_d[1100];
    size_t  base;
    int  g = k % 8 * 8 + mc_choose(8), pre = hpre[k / 8], i, j, o, how[3], owed[3], nh = 0, prev;
    bool  alive[3];
    N = 3;
    cork_gc_init();
    if (!pre_d[0]) for (i = 0; i < 1100; i++) { pre_d[i] = cork_gc_new(dummy); pre_d[i]->x = i; }
    base = track_live();
    memset(freed, 0, sizeof freed);
    memset(edge, -1, sizeof edge);
    for (i = 0; i < 3; i++) { hid[i] = mc_choose(3); hid[i] = hid[i] == 2 ? -1 : (i + 1 + hid[i]) % 3; }
    if (hid[0] < 0 && hid[1] < 0 && hid[2] < 0) return;
    for (i = 0; i < 3; i++) { ext[i] = 0; for (j = 0; j < 3; j++) if (i != j && g >> bit[i][j] & 1) edge[i][j] = j; }
    if (hid_alive(alive) > 0) return;       /* a ring the collector can't see: never to be freed */
    /* the maker's reference: kept, kept and the object a possible root already, or given away */
    for (i = 0; i < 3; i++) {
        int  in = 0;
        for (j = 0; j < 3; j++) in += (edge[j][i] >= 0) + (hid[j] == i);
        how[i] = mc_choose(in ? 3 : 2);
        ext[i] = how[i] < 2;
        nh += ext[i];
    }
    hid_alive(alive);
    for (i = 0; i < 3; i++) {
        bool  r[3];
        int  l;
        memset(reach, 0, sizeof reach);
        for (j = 0; j < 3; j++) if (ext[j]) mark(j);
        for (l = 0; l < 3; l++) for (j = 0; j < 3; j++) if (reach[j] && hid[j] >= 0) mark(hid[j]);
        memcpy(r, reach, sizeof r);
        if (!r[i]) return;
    }
    o = mc_choose(6);
    for (i = 0, prev = -1; i < 3; i++) if (!ext[perm[o][i]]) { if (perm[o][i] < prev || i < nh) return; prev = perm[o][i]; }
    for (i = 0; i < 3; i++) {
        obj[i] = cork_gc_alloc(sizeof(struct node), &hidi);
        memset(obj[i], 0, sizeof *obj[i]);
        obj[i]->id = i; obj[i]->magic = 0xfeed1234u + i; owed[i] = how[i] == 2;
    }
    for (i = 0; i < 3; i++) {
        for (j = 0; j < 3; j++) if (edge[i][j] >= 0) { mc_log("%d -> %d%s", i, j, owed[j] ? ", given away" : ""); obj[i]->kid[j] = owed[j] ? obj[j] : cork_gc_incref(obj[j]); owed[j] = 0; }
        if ((j = hid[i]) >= 0) { mc_log("%d owns %d", i, j); if (!owed[j]) cork_gc_incref(obj[j]); owed[j] = 0; }
    }
    for (i = 0; i < pre; i++) cork_gc_decref(cork_gc_incref(pre_d[i]));
    mc_log("%d possible roots pending", pre);
    for (i = 0; i < 3; i++) if (how[i] == 1) { mc_log("incref and decref %d", i); cork_gc_decref(cork_gc_incref(obj[i])); }
    for (i = 0; i < nh; i++) {
        ext[perm[o][i]]--;
        mc_log("decref %d", perm[o][i]);
        cork_gc_decref(obj[perm[o][i]]);
        mc_step();
        hid_alive(alive);
        for (j = 0; j < 3; j++) if (alive[j]) {
            mc_check(!freed[j], "freed-reachable", "object %d is still in use but was freed", j);
            mc_check(obj[j]->magic == 0xfeed1234u + j && obj[j]->id == j, "garbled", "object %d was overwritten", j);
        }
    }
    cork_gc_done();
    for (i = 0; i < 3; i++) mc_check(freed[i] == 1, "never-freed", "object %d is unreachable but was not freed by cork_gc_done", i);
    mc_check(track_live() == base, "leak", "%zu blocks left after cork_gc_done", track_live() - base);
    mc_state(mc_h(mc_h(mc_h(g, pre * 8 + o), hid[0] * 16 + hid[1] * 4 + hid[2]), how[0] * 9 + how[1] * 3 + how[2]));
    mc_cover("releases in free callbacks");
}

/* Garbage that only a collection can free mustn't pile up until the end. */
static long  ringfreed;
static void ring_free(void *p) { struct big  *n = p; mc_check(n->magic == 0xabcd1234u, "free-garbled", "free callback for something that is not a live node"); n->magic = 0; ringfreed++; }
static void ring_recurse(struct cork_gc *gc, void *p, cork_gc_recurser r, void *ud)
{
    struct big  *n = p;
    mc_check(n->magic == 0xabcd1234u, "use-after-free", "the collector visits an object that was freed");
    r(gc, n->kid[0], ud);
}
static struct cork_gc_obj_iface  ringi = { ring_free, ring_recurse };
static void rings(void)
{
    size_t  base = track_live();
    int  len = 1 + mc_choose(4), keep = mc_choose(3), i, j, kept = 0, n = 6000;
    static struct big  *r[4], *live[6000];
    long  made = 0, worst = 0;
    ringfreed = 0;
    cork_gc_init();
    for (i = 0; i < n; i++) {
        for (j = 0; j < len; j++) {
            r[j] = cork_gc_alloc(sizeof(struct big), &ringi);
            memset(r[j], 0, sizeof *r[j]);
            r[j]->magic = 0xabcd1234u;
            made++;
        }
        for (j = 0; j < len; j++) r[j]->kid[0] = cork_gc_incref(r[(j + 1) % len]);
        for (j = 1; j < len; j++) cork_gc_decref(r[j]);
        if (keep && i % 50 == keep) live[kept++] = r[0];
        else cork_gc_decref(r[0]);
        if (made - ringfreed > worst) worst = made - ringfreed;
    }
    mc_steps(n);
    mc_check(ringfreed > 0, "piles-up", "%ld unreachable objects in %d rings are all still there", made - (long) kept * len, n - kept);
    mc_check(worst < made * 3 / 4, "piles-up", "up to %ld of %ld objects pile up", worst, made);
    for (i = 0; i < kept; i++) { mc_check(live[i]->magic == 0xabcd1234u, "freed-reachable", "a reachable ring was freed"); cork_gc_decref(live[i]); }
    cork_gc_done();
    mc_check(ringfreed == made, "never-freed", "%ld of %ld objects were not freed by cork_gc_done", made - ringfreed, made);
    mc_check(track_live() == base, "leak", "%zu blocks left after cork_gc_done", track_live() - base);
    mc_state(mc_h(len, keep));
    mc_cover("many small rings");
}

/* ---- objects with very many references: from outside, from themselves, from another object and back ---- */
static int  mrefs[2], mfreed[2], mto[2];
struct mobj { int id; struct mobj  *peer; char pad[100]; };
static struct mobj  *mo[2];
static void m_free(void *p) { struct mobj  *m = p; mc_check(m->id == 0 || m->id == 1, "free-garbled", "free callback for something else"); mc_check(!mfreed[m->id], "free-twice", "object %d freed twice", m->id); mfreed[m->id] = 1; }
static void m_recurse(struct cork_gc *gc, void *p, cork_gc_recurser r, void *ud)
{ struct mobj  *m = p; int  i; for (i = 0; i < mrefs[m->id]; i++) r(gc, mo[mto[m->id]], ud); }
static struct cork_gc_obj_iface  mi = { m_free, m_recurse };
static void many_refs(void)
{
    static const int  ns[] = { 31, 32, 127, 128, 255, 256, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 65535, 65536, 65537, 100000, 600000 };
    int  n = ns[mc_choose(18)], shape = mc_choose(4), i, two = shape >= 2, late = mc_choose(2);
    size_t  base = track_live();
    cork_gc_init();
    mfreed[0] = mfreed[1] = mrefs[0] = mrefs[1] = 0;
    for (i = 0; i <= two; i++) { mo[i] = cork_gc_alloc(sizeof(struct mobj), &mi); memset(mo[i], 1, sizeof *mo[i]); mo[i]->id = i; }
    mc_log("%d references %s", n, shape == 0 ? "from outside" : shape == 1 ? "from the object itself" : shape == 2 ? "from another object, one back" : "from another object, none back");
    for (i = 0; i < n; i++) cork_gc_incref(mo[0]);
    if (shape == 0) {
        for (i = 0; i < n; i++) { cork_gc_decref(mo[0]); if (mfreed[0]) mc_fail("freed-reachable", "an object is freed with %d references left", n - i); }
        cork_gc_done();
        mc_check(!mfreed[0], "freed-reachable", "an object is freed with a reference left");
        cork_gc_incref(mo[0]); cork_gc_decref(mo[0]);
    } else if (shape == 1) { mrefs[0] = n; mto[0] = 0; }
    else {
        mrefs[1] = n; mto[1] = 0;
        if (shape == 2) { mrefs[0] = 1; mto[0] = 1; cork_gc_incref(mo[1]); }
        cork_gc_decref(mo[late]);
        if (shape == 3 && late) { mc_check(mfreed[1] && !mfreed[0], "not-at-once", "object 1 lost its only reference"); }
        cork_gc_done();
        mc_check(!mfreed[!late], "freed-reachable", "a reachable object was freed");
        if (!(shape == 3 && late)) mc_check(!mfreed[late], "freed-reachable", "a reachable object was freed");
    }
    if (shape == 3 && late) cork_gc_decref(mo[0]);
    else if (two) cork_gc_decref(mo[!late]);
    else cork_gc_decref(mo[0]);
    cork_gc_done();
    mc_check(mfreed[0] && (!two || mfreed[1]), "never-freed", "an unreachable object with %d references isn't freed", n);
    mc_check(track_live() == base, "leak", "%zu blocks left after cork_gc_done", track_live() - base);
    mc_steps(n);
    mc_state(mc_h(mc_h(n, shape), late));
}
void mc_run(int root)
{
    struct cfg  *c = &cfgs[root];
    int  i, j, g, per, held, nd = 0, pressed = 0;
    size_t  base = track_live();
    if (root == ncfg + NBIG + NHID + 1) { many_refs(); return; }
    if (root == ncfg + NBIG + NHID) { rings(); return; }
    if (root >= ncfg + NBIG) { hidden(root - ncfg - NBIG); return; }
    if (root >= ncfg) { big(root - ncfg); return; }
    N = c->n;
    per = (1 << (N * N)) / c->nchunk;
    g = c->chunk * per + (per > 1 ? mc_choose(per) : 0);
    mc_set_budget(c->budget);
    memset(freed, 0, sizeof freed);
    memset(shared, 0, sizeof shared);
    memset(gone, 0, sizeof gone);
    memset(edge, -1, sizeof edge);
    cork_gc_init();
    if (c->pre || c->budget) {
        nd = c->pre ? ND : 0;
        for (i = 0; i < nd; i++) { dum[i] = cork_gc_new(dummy); dum[i]->x = i; }
    }
    for (i = 0; i < N; i++) {
        bool  leaf = ((g >> (i * N)) & ((1 << N) - 1)) == 0 && i == 1 && c->budget == 0;
        obj[i] = cork_gc_alloc(sizeof(struct node), leaf ? &norec : &full);
        memset(obj[i], 0, sizeof *obj[i]);
        obj[i]->id = i;
        obj[i]->magic = 0xfeed1234u + i;
        ext[i] = refs[i] = 1;
    }
    for (i = 0; i < N; i++)
        for (j = 0; j < N; j++)
            if (g >> (i * N + j) & 1) {
                mc_log("%d -> %d", i, j);
                set_edge(i, j, j);
            }
    if (c->pre) { pressure(1024 - (c->pre - 1)); mc_log("%d possible roots pending", 1024 - (c->pre - 1)); }
    verify("after building");
    held = N;
    while (held > 0) {
        int  k, v[MAXN], nv = 0, op;
        uint64_t  h = N;
        /* an extra operation? 0: none, 1..N: incref, then cut an edge, add an edge, pressure */
        int  ncut = N * (N + 1), nadd = N * N;
        op = mc_choose_dev(1 + N + ncut + nadd + (c->pre ? 1 : 0));
        memset(reach, 0, sizeof reach);
        for (i = 0; i < N; i++) if (ext[i] > 0) mark(i);
        if (op == 0) {
        } else if (op <= N) {
            i = op - 1;
            if (reach[i]) {
                mc_log("incref %d", i);
                mc_step();
                take(i);
                mc_check(cork_gc_incref(obj[i]) == obj[i], "incref-result", "incref returned another pointer");
                if (ext[i]++ == 0) { held++; mc_cover("revived through another object"); }
            }
        } else if ((op -= N + 1) < ncut) {
            i = op / (N + 1); j = op % (N + 1);
            if (reach[i] && edge[i][j] >= 0) {
                mc_log("cut %d -> %d", i, edge[i][j]);
                mc_step();
                set_edge(i, j, -1);
                verify("after cutting an edge");
                check_gone();
                mc_cover("edge cut");
            }
        } else if ((op -= ncut) < nadd) {
            i = op / N; j = op % N;
            if (reach[i] && reach[j]) {
                mc_log("new edge %d -> %d", i, j);
                mc_step();
                set_edge(i, N, j);
                verify("after adding an edge");
                check_gone();
            }
        } else if (!pressed++) {
            mc_log("pressure");
            mc_step();
            pressure(ND);
            verify("after a forced collection");
            mc_cover("forced collection");
        }
        for (k = 0; k < N; k++) if (ext[k] > 0) v[nv++] = k;
        if (nv == 0) break;
        k = v[mc_choose(nv)];
        mc_log("decref %d", k);
        mc_step();
        if (--ext[k] == 0) held--;
        drop(k, true);
        cork_gc_decref(obj[k]);
        verify("after a decref");
        check_gone();
        for (i = 0; i < N; i++) { h = mc_h(h, ext[i] * 8 + freed[i]); for (j = 0; j <= N; j++) h = mc_h(h, edge[i][j]); }
        mc_state(h);
    }
    for (i = 0; i < nd; i++) cork_gc_decref(dum[i]);
    for (i = j = 0; i < N; i++) j += freed[i];
    if (j < N) mc_cover("garbage left for the collector");
    mc_log("cork_gc_done");
    cork_gc_done();
    mc_step();
    for (i = 0; i < N; i++)
        mc_check(freed[i] == 1, "never-freed", "object %d is unreachable but was not freed by cork_gc_done", i);
    mc_check(track_live() == base, "leak", "%zu blocks left after cork_gc_done", track_live() - base);
}
