/* C07: doubly-linked lists against plain sequences; the whole state space is closed. */
#include <limits.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

struct el { int id; struct cork_dllist_item  item; int tail; };
#define ME 6
static int  E, depth;
static struct el  el[ME];
static struct cork_dllist  L[2];
static int  seq[2][ME], n[2];
static struct cork_dllist  static_list = CORK_DLLIST_INIT(static_list);

int mc_roots(void) { return MC_T(4, 5) + 1; }
void mc_root_name(int r, char *b, size_t s) { if (r == MC_T(4, 5)) snprintf(b, s, "long lists, results of visitors"); else snprintf(b, s, "%d elements, 2 lists", r + 1); }

static void verify_list(int l, struct cork_dllist *list)
{
    struct cork_dllist_item  *c, *nx;
    struct el  *e;
    int  i;
    mc_check(cork_dllist_size(list) == (size_t) n[l], "size", "list %d size %zu, expected %d", l, cork_dllist_size(list), n[l]);
    mc_check(cork_dllist_is_empty(list) == (n[l] == 0), "empty", "is_empty wrong for list %d", l);
    mc_check(cork_dllist_head(list) == (n[l] ? &el[seq[l][0]].item : NULL), "head", "head of list %d", l);
    mc_check(cork_dllist_tail(list) == (n[l] ? &el[seq[l][n[l] - 1]].item : NULL), "tail", "tail of list %d", l);
    for (i = 0, c = cork_dllist_start(list); !cork_dllist_is_end(list, c); c = c->next, i++) {
        mc_check(i < n[l], "forward", "forward traversal of list %d too long", l);
        mc_check(c == &el[seq[l][i]].item, "forward", "forward traversal of list %d, position %d", l, i);
    }
    mc_check(i == n[l], "forward", "forward traversal of list %d too short", l);
    for (i = n[l], c = cork_dllist_end(list); !cork_dllist_is_start(list, c); c = c->prev) {
        mc_check(i > 0, "backward", "backward traversal of list %d too long", l);
        i--;
        mc_check(c == &el[seq[l][i]].item, "backward", "backward traversal of list %d, position %d", l, i);
    }
    mc_check(i == 0, "backward", "backward traversal of list %d too short", l);
    i = 0;
    cork_dllist_foreach(list, c, nx, struct el, e, item) {
        mc_check(i < n[l] && e == &el[seq[l][i]] && c == &e->item, "foreach", "foreach of list %d, position %d", l, i);
        i++;
    }
    mc_check(i == n[l], "foreach", "foreach of list %d made %d steps", l, i);
    i = 0;
    cork_dllist_foreach_void(list, c, nx) {
        mc_check(i < n[l] && c == &el[seq[l][i]].item, "foreach", "foreach_void of list %d", l);
        i++;
    }
    mc_check(i == n[l], "foreach", "foreach_void of list %d made %d steps", l, i);
}

static int vpos, vl, vcalls, vstopped, vorig[ME], vn;
static void m_del(int l, int i) { memmove(seq[l] + i, seq[l] + i + 1, (n[l] - i - 1) * sizeof(int)); n[l]--; }
static void m_ins(int l, int i, int e) { memmove(seq[l] + i + 1, seq[l] + i, (n[l] - i) * sizeof(int)); seq[l][i] = e; n[l]++; }

static void take_out(struct cork_dllist_item *it)
{
    cork_dllist_remove(it);
    it->next = it->prev = NULL;      /* as good as freed */
}

static int visitor(void *ud, struct cork_dllist_item *it)
{
    int  c;
    mc_check(ud == &vl, "visit-ud", "visitor got the wrong user data");
    mc_check(!vstopped, "visit-stop", "visit goes on after a non-zero result");
    mc_check(vcalls < vn && it == &el[vorig[vcalls]].item, "visit-order", "visitor call %d got the wrong element", vcalls);
    vcalls++;
    c = mc_choose(5);
    mc_log("  visitor(element %d) -> %s", vorig[vcalls - 1], c == 0 ? "0" : c == 1 ? "remove, 0" : c == 2 ? "1" : c == 3 ? "remove, -7" : "move, 0");
    if (c == 1 || c == 3 || c == 4) {
        take_out(it);
        m_del(vl, vpos);
        if (c == 4) {            /* the element goes to the other list */
            cork_dllist_add_to_tail(&L[1 - vl], it);
            seq[1 - vl][n[1 - vl]++] = vorig[vcalls - 1];
        }
    } else vpos++;
    if (c == 2) { vstopped = 1; return 1; }
    if (c == 3) { vstopped = -7; return -7; }
    return 0;
}
static void mapper(struct cork_dllist_item *it, void *ud)
{
    mc_check(ud == &vl && vcalls < vn && it == &el[vorig[vcalls]].item, "map-order", "map call %d got the wrong element", vcalls);
    vcalls++;
    if (mc_choose(2)) { mc_log("  map callback removes %d", vorig[vcalls - 1]); take_out(it); m_del(vl, vpos); } else vpos++;
}

static int where(int e, int *l)
{
    int  i;
    for (*l = 0; *l < 2; (*l)++) for (i = 0; i < n[*l]; i++) if (seq[*l][i] == e) return i;
    return -1;
}

/* ---- long lists; every kind of result ends a visit, and is its result ---- */
static int  g_calls, g_stop, g_with;
static int g_visit(void *ud, struct cork_dllist_item *it) { (void) ud; (void) it; return g_calls++ == g_stop ? g_with : 0; }
static void g_map(struct cork_dllist_item *it, void *ud)
{ struct el  *e = cork_container_of(it, struct el, item); mc_check(e->id == g_calls, "map-order", "map call %d got element %d", g_calls, e->id); g_calls++; (void) ud; }
static void long_lists(void)
{
    static const int  ns[] = { 1, 2, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70000 };
    static const int  results[] = { 1, -1, 2, 127, 128, -128, 255, 256, 512, 32768, 65535, 65536, 1 << 24, INT_MAX, INT_MIN };
    int  N = ns[mc_choose(12)], how = mc_choose(3), i, r, k, stops[4];
    struct el  *e = calloc(N, sizeof *e);
    struct cork_dllist  a, b;
    cork_dllist_init(&a); cork_dllist_init(&b);
    mc_log("%d elements", N);
    for (i = 0; i < N; i++) {
        e[i].id = i;
        if (how == 0) cork_dllist_add_to_tail(&a, &e[i].item);
        else if (how == 1) cork_dllist_add_to_tail(i < N / 2 ? &a : &b, &e[i].item);
    }
    if (how == 1) { mc_check(cork_dllist_size(&a) + cork_dllist_size(&b) == (size_t) N, "size", "two lists of %d elements have %zu and %zu", N, cork_dllist_size(&a), cork_dllist_size(&b)); cork_dllist_add_list_to_tail(&a, &b); mc_check(cork_dllist_is_empty(&b), "empty", "the source isn't empty"); }
    if (how == 2) for (i = N - 1; i >= 0; i--) cork_dllist_add_to_head(&a, &e[i].item);
    mc_check(cork_dllist_size(&a) == (size_t) N && !cork_dllist_is_empty(&a), "size", "a list of %d elements has %zu", N, cork_dllist_size(&a));
    g_calls = 0;
    cork_dllist_map(&a, g_map, NULL);
    mc_check(g_calls == N, "map-short", "%d steps for %d elements", g_calls, N);
    stops[0] = 0; stops[1] = N / 2; stops[2] = N - 1; stops[3] = N;
    for (k = 0; k < 4; k++) for (i = 0; i < 15; i++) {
        if (N > 1000 && i % 3 != how) continue;
        g_calls = 0; g_stop = stops[k]; g_with = results[i];
        r = cork_dllist_visit(&a, NULL, g_visit);
        mc_check(r == (k < 3 ? g_with : 0), "visit-result", "visit returned %d, visitor returned %d", r, k < 3 ? g_with : 0);
        mc_check(g_calls == (k < 3 ? g_stop + 1 : N), "visit-stop", "visit made %d calls for %d elements, the visitor returned %d in call %d", g_calls, N, g_with, g_stop);
    }
    for (i = 0; i < N; i += 2) cork_dllist_remove(&e[i].item);
    mc_check(cork_dllist_size(&a) == (size_t) (N / 2) && !!cork_dllist_is_empty(&a) == (N < 2), "size", "a list of %d elements has %zu", N / 2, cork_dllist_size(&a));
    free(e);
    mc_steps(N);
    mc_state(mc_h(N, how));
}

void mc_run(int root)
{
    int  d, i, l, op;
    struct el  guard = { 0, { NULL, NULL }, 0 };
    (void) guard;
    if (root == MC_T(4, 5)) { long_lists(); return; }
    mc_unpruned = MC_T(3, 4);
    E = root + 1;
    depth = MC_T(9, 12);
    n[0] = n[1] = 0;
    memset(el, 0, sizeof el);
    for (i = 0; i < E; i++) el[i].id = i;
    cork_dllist_init(&L[0]);
    cork_dllist_init(&L[1]);
    mc_check(cork_dllist_is_empty(&static_list) && cork_dllist_size(&static_list) == 0, "static-init", "static initialiser is not an empty list");
    for (d = 0; d < depth; d++) {
        int  e, kind, l1, pos;
        uint64_t  h = E;
        op = mc_choose(E + 5);
        if (op < E) {
            e = op;
            pos = where(e, &l);
            if (pos >= 0) {
                mc_log("remove(%d)", e);
                if (pos == 0 && (d & 1)) cork_dllist_remove(cork_dllist_head(&L[l]));
                else if (pos == n[l] - 1 && !(d & 1)) cork_dllist_remove(cork_dllist_tail(&L[l]));
                else cork_dllist_remove(&el[e].item);
                el[e].item.next = el[e].item.prev = NULL;
                m_del(l, pos);
            } else {
                /* choose a place: 2 lists x (head, tail, before x, after x) */
                kind = mc_choose(4 + 2 * (n[0] + n[1]) + 4);
                if (kind < 4) {
                    l = kind >> 1;
                    mc_log("add_to_%s(list %d, %d)", kind & 1 ? "tail" : "head", l, e);
                    if (kind & 1) { if (d & 1) cork_dllist_add_to_tail(&L[l], &el[e].item); else cork_dllist_add(&L[l], &el[e].item); m_ins(l, n[l], e); }
                    else { cork_dllist_add_to_head(&L[l], &el[e].item); m_ins(l, 0, e); }
                } else if (kind < 8) {     /* relative to the sentinel */
                    l = (kind - 4) >> 1;
                    mc_log("add_%s(sentinel of list %d, %d)", kind & 1 ? "after" : "before", l, e);
                    if (kind & 1) { cork_dllist_add_after(cork_dllist_is_empty(&L[l]) ? &L[l].head : cork_dllist_end(&L[l]), &el[e].item); m_ins(l, n[l], e); }
                    else { cork_dllist_add_before(cork_dllist_start(&L[l]), &el[e].item); m_ins(l, 0, e); }
                } else {
                    int  x = (kind - 8) >> 1;
                    l = x < n[0] ? 0 : 1;
                    if (l) x -= n[0];
                    mc_log("add_%s(%d, %d)", kind & 1 ? "after" : "before", seq[l][x], e);
                    if (kind & 1) { cork_dllist_add_after(&el[seq[l][x]].item, &el[e].item); m_ins(l, x + 1, e); }
                    else { cork_dllist_add_before(&el[seq[l][x]].item, &el[e].item); m_ins(l, x, e); }
                }
            }
        } else if (op == E) {
            int  how = mc_choose(4);
            l = how >> 1;
            l1 = 1 - l;
            mc_log("add_list_to_%s(dest %d, src %d)", how & 1 ? "tail" : "head", l, l1);
            if (how & 1) {
                cork_dllist_add_list_to_tail(&L[l], &L[l1]);
                for (i = 0; i < n[l1]; i++) seq[l][n[l]++] = seq[l1][i];
            } else {
                int  tmp[ME], k = 0;
                cork_dllist_add_list_to_head(&L[l], &L[l1]);
                for (i = 0; i < n[l1]; i++) tmp[k++] = seq[l1][i];
                for (i = 0; i < n[l]; i++) tmp[k++] = seq[l][i];
                memcpy(seq[l], tmp, sizeof tmp);
                n[l] = k;
            }
            n[l1] = 0;
        } else if (op < E + 3) {
            int  r;
            vl = op - E - 1;
            vpos = vcalls = vstopped = 0;
            vn = n[vl];
            memcpy(vorig, seq[vl], sizeof vorig);
            mc_log("visit(list %d)", vl);
            r = cork_dllist_visit(&L[vl], &vl, visitor);
            mc_check(r == vstopped, "visit-result", "visit returned %d, visitor returned %d", r, vstopped);
            mc_check(vstopped || vcalls == vn, "visit-short", "visit made %d calls for %d elements", vcalls, vn);
        } else {
            vl = op - E - 3;
            vpos = vcalls = 0;
            vn = n[vl];
            memcpy(vorig, seq[vl], sizeof vorig);
            if (vl == 0) {
                mc_log("map(list %d)", vl);
                cork_dllist_map(&L[vl], mapper, &vl);
            } else {
                struct cork_dllist_item  *c, *nx;
                struct el  *ee;
                mc_log("foreach(list %d) with removals", vl);
                cork_dllist_foreach(&L[vl], c, nx, struct el, ee, item) {
                    mc_check(vcalls < vn && ee == &el[vorig[vcalls]], "foreach", "foreach step %d got the wrong element", vcalls);
                    vcalls++;
                    if (mc_choose(2)) { take_out(c); m_del(vl, vpos); } else vpos++;
                }
            }
            mc_check(vcalls == vn, "map-short", "%d steps for %d elements", vcalls, vn);
        }
        mc_step();
        verify_list(0, &L[0]);
        verify_list(1, &L[1]);
        for (l = 0; l < 2; l++) { h = mc_h(h, 100 + n[l]); for (i = 0; i < n[l]; i++) h = mc_h(h, seq[l][i]); }
        if (mc_seen(h, depth - d - 1)) break;
    }
}
