/* C04: resizable arrays against a plain list, with element life cycles. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;

/* kinds: 0 = callbacks (mask), 1 = raw bytes of some element size, 2 = pointer array, 3 = string array */
struct cfg { int kind, arg, pre, depth; };
static struct cfg  cfgs[400];
static int  ncfg;
enum { C_INIT = 1, C_DONE = 2, C_REUSE = 4, C_REMOVE = 8 };
static void setup(void)
{
    static const int  pres[] = { 0, 1, 3, 4, 8, 15, 127, 1000 };
    static const int  esz[] = { 1, 3, 4, 8, 24, 100 };
    static const int  bigs[] = { 255, 257, 65535, 70000 };
    int  m, p;
    if (ncfg) return;
#define ADD(k,a,p,d) do { struct cfg  c = { k, a, p, d }; cfgs[ncfg++] = c; } while (0)
    for (m = 1; m < 16; m += 2) for (p = 0; p < 8; p++) ADD(0, m, pres[p], p > 5 ? (p == 6 ? MC_T(2, 3) : MC_T(1, 2)) : p == 0 ? MC_T(4, 5) : MC_T(3, 4));
    for (m = 0; m < 6; m++) for (p = 0; p < 8; p++) ADD(1, esz[m], pres[p], p > 5 ? (p == 6 ? MC_T(2, 3) : MC_T(1, 2)) : p == 0 ? MC_T(4, 5) : MC_T(3, 4));
    for (m = 0; m < 7; m++) for (p = 0; p < 4; p++) ADD(4, m, bigs[p], 1);
    for (m = 2; m < 4; m++) for (p = 0; p < 8; p++) ADD(m, 0, pres[p], p > 5 ? (p == 6 ? MC_T(2, 3) : MC_T(1, 2)) : p == 0 ? MC_T(4, 5) : MC_T(3, 4));
}
int mc_roots(void) { setup(); return ncfg; }
void mc_root_name(int r, char *b, size_t n)
{
    static const char  *k[] = { "callbacks mask", "element size", "pointer array", "string array", "large, variant" };
    setup();
    snprintf(b, n, "%s %d, %d elements first, depth %d", k[cfgs[r].kind], cfgs[r].arg, cfgs[r].pre, cfgs[r].depth);
}
void mc_init(void) { setup(); track_install(); track_prime(); }

/* ---- element tokens ---- */
#define MT 1100
enum { T_LIVE = 1, T_REMOVED, T_DONE };
static struct { int st, inits, dones, removes, reuses; }  tok[MT];
static int  ntok, ud, ud2, ud_freed, ud2_freed, closing, expect_init, nremoved;
struct elem { long token; int val; char pad[12]; };
static int  mask;
static void free_ud(void *p)
{
    if (p == &ud) ud_freed++;
    else { mc_check(p == &ud2, "userdata", "user data free callback got the wrong pointer"); ud2_freed++; }
}
static void e_init(void *u, void *v)
{
    struct elem  *e = v;
    mc_check(u == &ud, "userdata", "init got the wrong user data");
    mc_check(expect_init, "init-unexpected", "init called although an initialised slot is free");
    if (ntok == MT) mc_internal("tokens");
    e->token = 7000 + ntok;
    tok[ntok].st = T_LIVE; tok[ntok].inits = 1; tok[ntok].dones = tok[ntok].removes = tok[ntok].reuses = 0;
    ntok++;
}
static int tk(struct elem *e, const char *what)
{
    long  t = e->token - 7000;
    mc_check(t >= 0 && t < ntok, "uninitialised", "%s called for a slot that was never initialised", what);
    return t;
}
static void e_done(void *u, void *v)
{
    int  t = tk(v, "done");
    mc_check(u == &ud, "userdata", "done got the wrong user data");
    mc_check(closing, "done-early", "done called before the array was finalised");
    mc_check(tok[t].st != T_DONE, "done-twice", "done called twice for one slot");
    tok[t].st = T_DONE; tok[t].dones++;
}
static void e_reuse(void *u, void *v)
{
    int  t = tk(v, "reuse");
    mc_check(u == &ud, "userdata", "reuse got the wrong user data");
    mc_check(tok[t].st == T_REMOVED, "reuse-live", "reuse called for a slot that is in use");
    tok[t].st = T_LIVE; tok[t].reuses++;
}
static void e_remove(void *u, void *v)
{
    int  t = tk(v, "remove");
    mc_check(u == &ud, "userdata", "remove got the wrong user data");
    mc_check(tok[t].st == T_LIVE, "remove-dead", "remove called for a slot that is not in use");
    tok[t].st = T_REMOVED; tok[t].removes++; nremoved++;
}
static int  copy_fail, copies;
static int e_copy(void *u, void *d, const void *s)
{
    struct elem  *a = d; const struct elem  *b = s;
    mc_check(u == &ud2, "copy-userdata", "copy callback got the wrong user data");
    mc_check(tok[tk(a, "copy")].st == T_LIVE, "copy-dead", "copy into a slot that was not initialised or reused");
    if (copies++ == copy_fail) { cork_error_set_printf(77, "copy"); return -1; }
    a->val = b->val;
    return 0;
}
/* user side: the token of a new element (if no reuse callback marks it live) */
static int  vals[MT], toks[MT], n;
static int avail(void)
{
    int  i, k = 0;
    for (i = 0; i < ntok; i++) k += tok[i].st == T_REMOVED;
    return k;
}
static void verify0(struct cork_raw_array *a)
{
    int  i;
    uint64_t  h = mask;
    mc_check(cork_raw_array_size(a) == (size_t) n && cork_array_size(a) == (size_t) n, "size", "size is %zu, expected %d", a->size, n);
    mc_check(cork_raw_array_is_empty(a) == (n == 0), "empty", "is_empty wrong");
    mc_check(cork_raw_array_elements(a) == a->items, "elements", "elements pointer");
    for (i = 0; i < n; i++) {
        struct elem  *e = cork_raw_array_at(a, i);
        mc_check((char *) e == (char *) a->items + i * sizeof *e, "at", "elements are not contiguous");
        mc_check(e->val == vals[i], "contents", "element %d is %d, expected %d", i, e->val, vals[i]);
        mc_check(tok[e->token - 7000].st == T_LIVE, "not-live", "element %d was not initialised or reused (state %d)", i, tok[e->token - 7000].st);
        if (toks[i] >= 0) mc_check(e->token - 7000 == toks[i], "slot", "element %d lost its initialised state", i);
        toks[i] = e->token - 7000;
        h = mc_h(h, vals[i]);
    }
    mc_state(mc_h(h, ntok));
}
static void out_of_array(int i) { if (!(mask & C_REMOVE)) tok[toks[i]].st = T_REMOVED; }
static void append0(struct cork_raw_array *a, int val)
{
    int  free_slots = avail(), before = ntok;
    struct elem  *e;
    cork_array(struct elem)  *ta = (void *) a;
    expect_init = free_slots == 0;
    e = cork_array_append_get(ta);
    mc_check(e == (struct elem *) a->items + (a->size - 1), "append-get", "append_get returned the wrong element");
    mc_check((ntok == before + 1) == (free_slots == 0), "init-missing", "append initialised %d slots, %d were free", ntok - before, free_slots);
    if (!(mask & C_REUSE)) { long  t = e->token - 7000; mc_check(t >= 0 && t < ntok, "init-missing", "new element was not initialised"); tok[t].st = T_LIVE; }
    e->val = val;
    vals[n] = val; toks[n] = -1; n++;
}
static void run_callbacks(struct cfg *c)
{
    struct cork_raw_array  a, src;
    int  i, d, serial = 1, use_free_first;
    struct elem  x;
    mask = c->arg;
    ntok = n = closing = ud_freed = ud2_freed = 0;
    cork_raw_array_init(&a, sizeof(struct elem));
    mc_check(cork_raw_array_element_size(&a) == sizeof(struct elem), "element-size", "element size");
    use_free_first = mc_choose(2);
    if (use_free_first) cork_raw_array_set_callback_data(&a, &ud2, free_ud);
    cork_raw_array_set_callback_data(&a, &ud, free_ud);
    cork_raw_array_set_init(&a, e_init);
    if (mask & C_DONE) cork_raw_array_set_done(&a, e_done);
    if (mask & C_REUSE) cork_raw_array_set_reuse(&a, e_reuse);
    if (mask & C_REMOVE) cork_raw_array_set_remove(&a, e_remove);
    cork_raw_array_init(&src, sizeof(struct elem));
    for (i = 0; i < c->pre; i++) append0(&a, serial++);
    verify0(&a);
    for (d = 0; d < c->depth; d++) {
        int  op = mc_choose(7), k, cnt, before_n = n;
        mc_step();
        nremoved = 0;
        if (op == 0) { mc_log("append"); append0(&a, serial++); }
        else if (op == 1) {
            mc_log("clear");
            for (i = 0; i < n; i++) out_of_array(i);
            n = 0;
            cork_raw_array_clear(&a);
            if (mask & C_REMOVE) mc_check(nremoved == before_n, "remove-missing", "clear of %d elements called remove %d times", before_n, nremoved);
        } else if (op == 2) {
            static const int  want[] = { 0, 1, 5, 9, 20 };
            k = want[mc_choose(5)];
            mc_log("ensure_size(%d)", k);
            cork_raw_array_ensure_size(&a, k);
        } else if (op == 3) {
            if (n == 0) continue;
            k = n > 3 ? (mc_choose(2) ? n - 1 : 0) : mc_choose(n);
            cnt = 1;
            mc_log("remove(%d)", k);
            out_of_array(k);
            cork_raw_array_remove(&a, k);
            goto removed;
        } else if (op == 4) {
            k = mc_choose(n > 3 ? 4 : n + 1);
            if (n > 3 && k == 3) k = n - 1;
            cnt = mc_choose(n - k > 3 ? 5 : n - k + 1);
                if (n - k > 3 && cnt == 4) cnt = n - k;
            mc_log("remove_range(%d, %d)", k, cnt);
            for (i = 0; i < cnt; i++) out_of_array(k + i);
            cork_raw_array_remove_range(&a, k, cnt);
          removed:
            if (mask & C_REMOVE) {
                mc_check(nremoved == cnt, "remove-missing", "removing %d elements called remove %d times", cnt, nremoved);
                for (i = 0; i < cnt; i++) mc_check(tok[toks[k + i]].st == T_REMOVED, "remove-wrong", "remove callback ran for the wrong element");
            }
            memmove(vals + k, vals + k + cnt, (n - k - cnt) * sizeof *vals);
            memmove(toks + k, toks + k + cnt, (n - k - cnt) * sizeof *toks);
            n -= cnt;
        } else if (op == 5) {
            int  sn = mc_choose(4), fail = mc_choose(sn + 1), rc, freeslots;
            if (sn == 3) sn = 9;
            cork_raw_array_clear(&src);
            for (i = 0; i < sn; i++) { struct elem  *e = cork_raw_array_append(&src); memset(e, 0xee, sizeof *e); e->val = 500 + i; }
            mc_log("copy from array of %d%s", sn, fail ? ", failing" : "");
            for (i = 0; i < n; i++) out_of_array(i);
            copy_fail = fail - 1; copies = 0;
            /* which slots come back */
            freeslots = ntok;
            expect_init = sn > freeslots;
            {
                int  before = ntok, j;
                struct elem  *e;
                /* without a reuse callback the harness itself marks the slots */
                if (!(mask & C_REUSE)) {
                    e = a.items;
                    cork_raw_array_clear(&a);
                    for (j = 0; j < ntok && j < sn; j++) { long  t = e[j].token - 7000; if (t >= 0 && t < ntok) tok[t].st = T_LIVE; }
                }
                rc = cork_raw_array_copy(&a, &src, e_copy, &ud2);
                mc_check((rc == 0) == (fail == 0), "copy-result", "copy returned %d", rc);
                mc_check(ntok - before == (sn > freeslots ? sn - freeslots : 0), "copy-init", "copy of %d elements initialised %d slots, %d were free", sn, ntok - before, freeslots);
            }
            mc_check(src.size == (size_t) sn, "copy-source", "copy changed its source");
            if (rc == 0) {
                n = sn;
                for (i = 0; i < n; i++) { vals[i] = 500 + i; toks[i] = -1; }
            } else {
                cork_error_clear();
                mc_cover("copy fails");
                /* nothing is said about the contents after a failure; only the life cycle */
                for (i = 0; i < (int) a.size; i++) {
                    struct elem  *e = cork_raw_array_at(&a, i);
                    mc_check(tok[tk(e, "at")].st == T_LIVE, "copy-fail-live", "element %d after a failed copy is not in use", i);
                }
                /* whatever is not in the array any more has to be removed */
                if (mask & C_REMOVE) {
                    int  live = 0;
                    for (i = 0; i < ntok; i++) live += tok[i].st == T_LIVE;
                    mc_check(live == (int) a.size, "copy-fail-remove", "%d slots are in use after a failed copy, but the array has %zu elements", live, a.size);
                }
                n = a.size;
                if (!(mask & C_REMOVE)) for (i = 0; i < ntok; i++) tok[i].st = T_REMOVED;
                for (i = 0; i < n; i++) { struct elem  *e = cork_raw_array_at(&a, i); vals[i] = e->val; toks[i] = -1; tok[tk(e, "at")].st = T_LIVE; }
            }
        } else {
            if (n == 0) continue;
            k = mc_choose(2) ? n - 1 : 0;
            mc_log("at(%d) = ...", k);
            { cork_array(struct elem)  *ta = (void *) &a; x = cork_array_at(ta, k); x.val = serial; cork_array_at(ta, k) = x; }
            vals[k] = serial++;
        }
        verify0(&a);
    }
    closing = 1;
    cork_raw_array_done(&a);
    cork_raw_array_done(&src);
    for (i = 0; i < ntok; i++)
        mc_check(tok[i].dones == ((mask & C_DONE) ? 1 : 0), "done-missing", "slot %d of %d finalised %d times", i, ntok, tok[i].dones);
    mc_check(ud_freed == 1, "userdata-free", "user data freed %d times", ud_freed);
    mc_check(ud2_freed == use_free_first, "userdata-free", "replaced user data freed %d times", ud2_freed);
}

/* ---- plain elements of any size ---- */
static void run_plain(struct cfg *c)
{
    int  es = c->arg, d, i, serial = 1, rc;
    struct cork_raw_array  a, b;
    unsigned char  v[MT], *e;
    n = 0;
    cork_raw_array_init(&a, es);
    cork_raw_array_init(&b, es);
    for (i = 0; i < c->pre; i++) { e = cork_raw_array_append(&a); memset(e, serial, es); v[n++] = serial++; }
    for (d = 0; d < c->depth; d++) {
        int  op = mc_choose(6), k, cnt, j;
        uint64_t  h = es;
        mc_step();
        switch (op) {
            case 0: e = cork_raw_array_append(&a); memset(e, serial, es); v[n++] = serial++; mc_log("append"); break;
            case 1: cork_raw_array_clear(&a); n = 0; mc_log("clear"); break;
            case 2: k = 1 + mc_choose(3) * 7; cork_raw_array_ensure_size(&a, k); mc_log("ensure_size(%d)", k);
                memset((char *) a.items + n * es, 0, (k > n ? k - n : 0) * es); break;
            case 3:
                k = mc_choose(n > 3 ? 4 : n + 1);
                if (n > 3 && k == 3) k = n - 1;
                cnt = mc_choose(n - k > 3 ? 5 : n - k + 1);
                if (n - k > 3 && cnt == 4) cnt = n - k;
                mc_log("remove_range(%d, %d)", k, cnt);
                if (cnt == 1) cork_array_remove(&a, k); else cork_array_remove_range(&a, k, cnt);
                memmove(v + k, v + k + cnt, n - k - cnt); n -= cnt;
                break;
            case 4:
                mc_log("copy to another array and back");
                rc = cork_raw_array_copy(&b, &a, NULL, NULL);
                mc_check(rc == 0 && b.size == (size_t) n, "copy-result", "copy failed");
                if (mc_choose(2)) { cork_raw_array_append(&b); memset(cork_raw_array_at(&b, n), 0xee, es); mc_check(a.size == (size_t) n, "copy-source", "arrays are not independent"); b.size--; }
                for (i = 0; i < n; i++) if (i & 1) memset(cork_raw_array_at(&a, i), 0xdd, es);
                rc = cork_raw_array_copy(&a, &b, NULL, NULL);
                mc_check(rc == 0, "copy-result", "copy failed");
                break;
            case 5:
                if (n == 0) continue;
                k = mc_choose(2) ? n - 1 : 0;
                memset(cork_raw_array_at(&a, k), serial, es); v[k] = serial++; mc_log("at(%d) = ...", k);
                break;
        }
        mc_check(cork_raw_array_size(&a) == (size_t) n && cork_raw_array_is_empty(&a) == (n == 0), "size", "size is %zu, expected %d", a.size, n);
        for (i = 0; i < n; i++) {
            e = cork_raw_array_at(&a, i);
            mc_check(e == (unsigned char *) cork_raw_array_elements(&a) + i * es, "at", "elements are not contiguous");
            for (j = 0; j < es; j++) mc_check(e[j] == v[i], "contents", "byte %d of element %d is %d, expected %d", j, i, e[j], v[i]);
            h = mc_h(h, v[i]);
        }
        mc_state(h);
    }
    cork_raw_array_done(&a);
    cork_raw_array_done(&b);
}

/* ---- pointer and string arrays ---- */
static int  pfreed[MT];
static long  pobj[MT];
static void pfree(void *p)
{
    long  i = (long *) p - pobj;
    mc_check(i > 0 && i < MT, "pointer-free", "free callback got a foreign pointer");
    mc_check(!pfreed[i], "pointer-free-twice", "element freed twice");
    pfreed[i]++;
}
static void run_pointers(struct cfg *c)
{
    bool  str = c->kind == 3;
    cork_array(long *)  pa;
    struct cork_string_array  sa, sb;
    int  d, i, serial = 1, v[MT], in[MT];
    char  buf[64];
    memset(pfreed, 0, sizeof pfreed);
    memset(in, 0, sizeof in);
    n = 0;
    if (str) { cork_string_array_init(&sa); cork_string_array_init(&sb); }
    else cork_pointer_array_init(&pa, pfree);
#define STR(i) (sprintf(buf, "%.*s-%d", (i) % 23, "abcdefghijklmnopqrstuvwxyz", (i)), buf)
#define APP() do { if (str) cork_string_array_append(&sa, STR(serial)); else cork_array_append(&pa, &pobj[serial]); in[serial] = 1; v[n++] = serial++; } while (0)
    for (i = 0; i < c->pre; i++) APP();
    for (d = 0; d < c->depth; d++) {
        int  op = mc_choose(str ? 6 : 5), k, cnt;
        uint64_t  h = str;
        struct cork_raw_array  *raw = str ? cork_array_to_raw(&sa) : cork_array_to_raw(&pa);
        mc_step();
        switch (op) {
            case 0: mc_log("append"); APP(); break;
            case 1: mc_log("clear"); for (i = 0; i < n; i++) in[v[i]] = 2; n = 0; cork_raw_array_clear(raw); break;
            case 2: k = mc_choose(3) * 7; mc_log("ensure_size(%d)", k); cork_raw_array_ensure_size(raw, k); break;
            case 3:
                k = mc_choose(n > 3 ? 4 : n + 1);
                if (n > 3 && k == 3) k = n - 1;
                cnt = mc_choose(n - k > 3 ? 5 : n - k + 1);
                if (n - k > 3 && cnt == 4) cnt = n - k;
                mc_log("remove_range(%d, %d)", k, cnt);
                for (i = 0; i < cnt; i++) in[v[k + i]] = 2;
                cork_raw_array_remove_range(raw, k, cnt);
                memmove(v + k, v + k + cnt, (n - k - cnt) * sizeof *v); n -= cnt;
                break;
            case 4:
                if (n == 0) continue;
                mc_log(str ? "append its own element" : "append_get");
                if (str) { cork_string_array_append(&sa, cork_array_at(&sa, 0)); v[n] = v[0]; n++; }
                else {          /* an element that nobody has put a pointer in is NULL, and nobody frees it */
                    long  **e = cork_array_append_get(&pa);
                    mc_check(*e == NULL, "pointer-init", "a new element of a pointer array isn't NULL");
                    if (mc_choose(2)) { *e = &pobj[serial]; in[serial] = 1; v[n++] = serial++; } else v[n++] = 0;
                }
                break;
            case 5:
                mc_log("copy to another array and back");
                cork_string_array_copy(&sb, &sa);
                mc_check(cork_array_size(&sb) == (size_t) n, "copy-result", "string array copy has %zu elements", cork_array_size(&sb));
                for (i = 0; i < n; i++) mc_check(strcmp(cork_array_at(&sb, i), STR(v[i])) == 0 && cork_array_at(&sb, i) != cork_array_at(&sa, i), "copy-contents", "string array copy is wrong at %d", i);
                if (mc_choose(2)) { cork_string_array_append(&sa, "tmp"); cork_string_array_copy(&sa, &sb); }
                break;
        }
        mc_check(raw->size == (size_t) n, "size", "size is %zu, expected %d", raw->size, n);
        for (i = 0; i < n; i++) {
            if (str) mc_check(strcmp(cork_array_at(&sa, i), STR(v[i])) == 0, "contents", "string %d is %s", i, mc_quote(cork_array_at(&sa, i), 20));
            else mc_check(cork_array_at(&pa, i) == (v[i] ? &pobj[v[i]] : NULL), "contents", "pointer %d", i);
            h = mc_h(h, v[i]);
        }
        if (!str) for (i = 1; i < serial; i++) mc_check(pfreed[i] == (in[i] == 2), "pointer-free", "element %d: freed %d times, removed: %d", i, pfreed[i], in[i] == 2);
        mc_state(h);
    }
    if (str) { cork_array_done(&sa); cork_array_done(&sb); } else cork_array_done(&pa);
    if (!str) for (i = 1; i < serial; i++) mc_check(pfreed[i] == 1, "pointer-free", "element %d freed %d times", i, pfreed[i]);
}

/* ---- large arrays: 0, 1: plain elements; 2: large ones; 3: pointers; 4: strings; 5: typed; 6: with callbacks ---- */
#define BIGN  140100
static unsigned char  *bfreed;
static long  *bobj;
static long  binits, bdones, breuses, bremoves;
static void bfree(void *p)
{
    long  i = (long *) p - bobj;
    mc_check(i >= 0 && i < BIGN, "pointer-free", "free callback got a foreign pointer");
    mc_check(!bfreed[i], "pointer-free-twice", "element freed twice");
    bfreed[i] = 1;
}
static void b_init(void *u, void *v) { binits++; *(long *) v = 77; (void) u; }
static void b_done(void *u, void *v) { bdones++; mc_check(*(long *) v != -5, "done-twice", "a slot is finalised twice"); *(long *) v = -5; (void) u; }
static void b_reuse(void *u, void *v) { breuses++; mc_check(*(long *) v == -7, "reuse", "a slot is reused that wasn't removed"); *(long *) v = 77; (void) u; }
static void b_remove(void *u, void *v) { bremoves++; *(long *) v = -7; (void) u; }
static int bcopy1(void *u, void *d, const void *s) { (void) u; *(long *) d = *(const long *) s; return 0; }
static void run_large(struct cfg *c)
{
    static const int  es_of[] = { 1, 8, 700 };
    int  kind = c->arg, N = c->pre, i, j, n = 0, ser = 1, *v, es = kind < 3 ? es_of[kind] : sizeof(void *), stage, start, cnt;
    struct cork_raw_array  a, b;
    struct cork_string_array  *sa = (struct cork_string_array *) &a, *sb = (struct cork_string_array *) &b;
    cork_array(long *)  *pa = (void *) &a;
    cork_array(long)  *ta = (void *) &a;
    char  buf[40];
    unsigned char  *e;
    if (kind == 2 && N > 2000) N = N == 70000 ? 3000 : 1500;
    v = malloc(BIGN * sizeof *v); bfreed = calloc(BIGN, 1); bobj = malloc(BIGN * sizeof *bobj);
    binits = bdones = breuses = bremoves = 0;
    if (kind < 3) { cork_raw_array_init(&a, es); cork_raw_array_init(&b, es); }
    else if (kind == 3) { cork_pointer_array_init(pa, bfree); }
    else if (kind == 4) { cork_string_array_init(sa); cork_string_array_init(sb); }
    else if (kind == 5) { cork_array_init(ta); cork_raw_array_init(&b, es); }
    else {
        cork_raw_array_init(&a, es); cork_raw_array_init(&b, es);
        cork_raw_array_set_init(&a, b_init); cork_raw_array_set_done(&a, b_done); cork_raw_array_set_reuse(&a, b_reuse); cork_raw_array_set_remove(&a, b_remove);
    }
#define LSTR(i) (sprintf(buf, "string %d%s", (i), (i) % 3 ? "" : " and more"), buf)
#define LAPP() do { \
        if (kind < 3) { e = cork_raw_array_append(&a); memset(e, ser, es); if (es >= 8) memcpy(e + es - 4, &ser, 4); } \
        else if (kind == 3) cork_array_append(pa, &bobj[ser]); else if (kind == 4) cork_string_array_append(sa, LSTR(ser)); \
        else if (kind == 5) cork_array_append(ta, ser * 3L); \
        else { long  *l = cork_raw_array_append(&a); mc_check(*l == 77, "init", "a new slot isn't initialised"); *l = ser * 3L; } \
        v[n++] = ser++; } while (0)
#define LCHECK(A, what) do { \
        mc_check((A)->size == (size_t) n, "size", "%s: size is %zu, expected %d", what, (size_t) (A)->size, n); \
        for (i = 0; i < n; i++) { \
            bool  ok; \
            void  *at = cork_raw_array_at((A), i); \
            if (kind < 3) { ok = *(unsigned char *) at == (unsigned char) v[i]; if (es >= 8) ok = ok && !memcmp((char *) at + es - 4, &v[i], 4); } \
            else if (kind == 3) ok = *(long **) at == &bobj[v[i]]; else if (kind == 4) ok = !strcmp(*(const char **) at, LSTR(v[i])); else ok = *(long *) at == v[i] * 3L; \
            mc_check(ok, "contents", "%s: element %d of %d", what, i, n); \
        } } while (0)
    i = mc_choose(3);
    mc_log("%d elements%s", N, i == 1 ? ", room made before" : i == 2 ? ", room made on the way" : "");
    if (i == 1) cork_raw_array_ensure_size(&a, N);
    for (j = 0; j < N; j++) { if (i == 2 && j == 100) cork_raw_array_ensure_size(&a, N + 5); LAPP(); }
    LCHECK(&a, "after appending");
    stage = mc_choose(4);
    if (stage == 0) {
        static const int  starts[] = { 0, 1, 200, 32768, 65530, 65536 }, counts[] = { 1, 5, 127, 128, 256, 65536 };
        start = starts[mc_choose(6)]; cnt = counts[mc_choose(6)];
        if (start > n) start = n;
        if (cnt > n - start) cnt = n - start;
        mc_log("remove_range(%d, %d)", start, cnt);
        cork_raw_array_remove_range(&a, start, cnt);
        memmove(v + start, v + start + cnt, (n - start - cnt) * sizeof *v); n -= cnt;
        LCHECK(&a, "after removing");
        if (kind == 3) for (i = 0, j = 0; i < ser; i++) j += bfreed[i];
        if (kind == 3) mc_check(j == cnt, "pointer-free", "%d elements freed for %d removed", j, cnt);
    } else if (stage == 1) {
        mc_log("clear, append again");
        cork_raw_array_clear(&a); n = 0;
        mc_check(a.size == 0, "size", "not empty after clear");
    } else if (stage == 2 && kind != 3) {
        mc_log("copy");
        if (kind == 4) cork_string_array_copy(sb, sa);
        else mc_check(cork_raw_array_copy(&b, &a, kind == 6 ? bcopy1 : NULL, NULL) == 0, "copy-result", "copy fails");
        LCHECK(&b, "the copy");
    }
    for (j = 0; j < N; j++) { if (n >= N && j > 20) break; LAPP(); }
    LCHECK(&a, "after appending again");
    if (kind == 3) for (i = 0; i < n; i++) mc_check(!bfreed[v[i]], "pointer-free", "element %d is freed too early", i);
    cork_raw_array_done(&a);
    if (kind != 3) cork_raw_array_done(&b);
    if (kind == 3) for (i = 1; i < ser; i++) mc_check(bfreed[i], "pointer-free", "element %d is never freed", i);
    if (kind == 6) mc_check(binits == bdones && binits + breuses == ser - 1, "callbacks", "%ld slots initialised, %ld reused, %ld finalised for %d elements", binits, breuses, bdones, ser - 1);
    free(v); free(bfreed); free(bobj);
    mc_steps(N);
    mc_state(mc_h(mc_h(kind, N), stage));
}
void mc_run(int root)
{
    struct cfg  *c = &cfgs[root];
    size_t  base;
    cork_error_clear();
    base = track_live();
    switch (c->kind) {
        case 0: run_callbacks(c); break;
        case 1: run_plain(c); break;
        case 4: run_large(c); break;
        default: run_pointers(c); break;
    }
    mc_check(track_live() == base, "leak", "%zu blocks left", track_live() - base);
}
