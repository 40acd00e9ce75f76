/* C01 (arg=map) and C02 (arg=own): the hash table against an insertion-ordered list. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
#include "track.h"

const char *mc_harness_name = HARNESS_NAME;

#define NK 2600                     /* key universe */
struct obj { int id; int variant; int state; int serial; char s[16]; };
enum { OUTSIDE, IN_TABLE, FREED };

static bool own;
static int  cfg_hash, cfg_kind, cfg_prefill, cfg_depth, cfg_keys, cfg_free, cfg_prune, cfg_init;

/* ---- configurations ---- */
struct cfg { int kind, hash, prefill, init, depth, keys, prune, free; };
static struct cfg  cfgs[400];
static int  ncfg;
static const char *kinds[] = { "custom", "string", "pointer" };
static const char *hashes[] = { "identity", "constant", "times8", "highbits", "murmur" };
static const int  prefills[] = { 0, 47, 48 };

static void add(int kind, int hash, int prefill, int init, int depth, int keys, int prune, int fr)
{
    struct cfg  c = { kind, hash, prefill, init, depth, keys, prune, fr };
    cfgs[ncfg++] = c;
}

static void setup(void)
{
    int  h, k, f;
    if (ncfg) return;
    own = strcmp(mc_arg, "own") == 0;
    if (!own) {
        for (h = 0; h < 5; h++) {
            add(0, h, 0, 0, MC_T(3, 4), 3, 0, 0);
            add(0, h, 0, 0, MC_T(5, 7), 3, 1, 0);
            add(0, h, 47, 0, MC_T(2, 3), 4, 0, 0);
            add(0, h, 48, 0, MC_T(2, 3), 4, 0, 0);
            add(0, h, 48, 0, MC_T(3, 5), 4, 1, 0);
        }
        for (k = 1; k < 3; k++) {
            add(k, 0, 0, 0, MC_T(3, 4), 3, 0, 0);
            add(k, 0, 0, 0, MC_T(5, 6), 3, 1, 0);
            add(k, 0, 48, 0, MC_T(2, 3), 4, 0, 0);
        }
        add(0, 2, 0, 9, MC_T(3, 4), 3, 0, 0);
        add(0, 2, 0, 64, MC_T(3, 4), 3, 0, 0);
        add(0, 0, 96, 16, MC_T(2, 3), 4, 0, 0);
        add(0, 2, 97, 0, MC_T(2, 2), 4, 0, 0);
    } else {
        for (f = 0; f < 8; f++) {      /* free_key | free_value<<1 | free_user_data<<2 */
            add(0, 1, 0, 0, MC_T(3, 4), 2, 0, f);
            add(0, 0, 0, 0, MC_T(5, 7), 3, 1, f);
            add(0, 2, 48, 0, MC_T(2, 3), 3, 0, f);
        }
        for (k = 1; k < 3; k++)
            for (f = 0; f < 4; f++)
                add(k, 0, 0, 0, MC_T(3, 4), 2, 0, f);
    }
}

/* large tables: n entries, put, deleted and put again in patterns; found through model index pos[] */
static const struct { int kind, hash, n, init; }  bigs[] = {
    { 0, 0, 2500, 0 }, { 0, 2, 2500, 0 }, { 0, 4, 1200, 0 }, { 0, 1, 250, 0 }, { 0, 3, 600, 0 }, { 1, 0, 2500, 0 }, { 2, 0, 2500, 0 },
    { 0, 4, 2500, 1500 }, { 0, 0, 700, 3 }, { 1, 0, 150, 1 } };
#define NBIG (int) (sizeof bigs / sizeof bigs[0])
int mc_roots(void) { setup(); return ncfg + NBIG + 4; }
void mc_root_name(int r, char *b, size_t n)
{
    struct cfg  *c = &cfgs[r];
    if (r >= ncfg + NBIG) { snprintf(b, n, "tens of thousands of entries, variant %d", r - ncfg - NBIG); return; }
    if (r >= ncfg) { snprintf(b, n, "%d entries, table=%s hash=%s", bigs[r - ncfg].n, kinds[bigs[r - ncfg].kind], hashes[bigs[r - ncfg].hash]); return; }
    snprintf(b, n, "table=%s hash=%s prefill=%d init=%d depth=%d keys=%d pruned=%d free=%d",
             kinds[c->kind], hashes[c->hash], c->prefill, c->init, c->depth, c->keys, c->prune, c->free);
}

static char  ud_token, mapper_token;
static int  ud_freed;

static cork_hash hash_of(int id)
{
    switch (cfg_hash) {
        case 0: return id;
        case 1: return 7;
        case 2: return id * 8;
        case 3: return (cork_hash) id << 28;
        default: return cork_stable_hash_buffer(0, &id, sizeof id);
    }
}
static cork_hash custom_hash(void *ud, const void *k)
{
    mc_check(ud == &ud_token, "userdata", "hash callback got the wrong user data");
    return hash_of(((const struct obj *) k)->id);
}
static bool custom_equals(void *ud, const void *a, const void *b)
{
    mc_check(ud == &ud_token, "userdata", "equals callback got the wrong user data");
    return ((const struct obj *) a)->id == ((const struct obj *) b)->id;
}

/* ---- model ---- */
struct ment { int id; struct obj *key; struct obj *val; };
static struct ment  m[NK * 2];
static int  mn;
static size_t  max_ensure;
static int  max_count, serial;
static struct cork_hash_table  *t;
static struct obj  *all[40000];
static int  nall;

static void *kp(struct obj *o)      /* key pointer given to the table */
{ return o == NULL ? NULL : cfg_kind == 1 ? (void *) o->s : (void *) o; }
static struct obj *ko(void *p)
{ return p == NULL ? NULL : cfg_kind == 1 ? (struct obj *) ((char *) p - offsetof(struct obj, s)) : p; }

static struct obj *mk(int id, int variant)
{
    struct obj  *o = malloc(sizeof *o);
    o->id = id; o->variant = variant; o->state = OUTSIDE; o->serial = serial++;
    snprintf(o->s, sizeof o->s, "key%d", id);
    if (nall >= 40000) mc_internal("too many objects");
    all[nall++] = o;
    return o;
}

/* pointer tables: one identity per id and execution */
static struct obj  *ptrkey[NK];
static struct obj *mkkey(int id)
{
    if (cfg_kind == 2) {
        if (ptrkey[id] == NULL) ptrkey[id] = mk(id, 0);
        return ptrkey[id];
    }
    return mk(id, 0);
}

static int freed_keys, freed_vals;
static void release(struct obj *o, const char *what)
{
    mc_check(o->state != FREED, "double-free", "%s #%d (id %d) was freed twice", what, o->serial, o->id);
    mc_check(o->state == IN_TABLE, "free-not-owned", "%s #%d (id %d) was freed although the table does not own it",
             what, o->serial, o->id);
    o->state = FREED;
}
static void free_key(void *k) { freed_keys++; release(ko(k), "key"); }
static void free_val(void *v) { freed_vals++; release(v, "value"); }
static int  ud_first, ud_first_freed;
static void free_ud_first(void *u) { mc_check(u == &ud_first, "userdata-free", "replaced user data freed wrongly"); ud_first_freed++; }
static void free_ud(void *ud)
{
    mc_check(ud == &ud_token, "userdata-free", "free_user_data called with the wrong pointer");
    ud_freed++;
}

static int find(int id)
{
    int  i;
    for (i = 0; i < mn; i++) if (m[i].id == id) return i;
    return -1;
}
static void m_remove(int i)
{
    /* the table gave up this entry */
    memmove(m + i, m + i + 1, (mn - i - 1) * sizeof *m);
    mn--;
}
/* what must have happened to the parts of an entry the table dropped itself */
static void dropped(struct obj *k, struct obj *v, const char *op)
{
    if (!own) return;
    if (cfg_free & 1) mc_check(k->state == FREED, "not-freed", "%s: key #%d (id %d) was not freed", op, k->serial, k->id);
    else { mc_check(k->state == IN_TABLE, "free-not-owned", "%s: key state", op); k->state = OUTSIDE; }
    if (v == NULL) return;
    if (cfg_free & 2) mc_check(v->state == FREED, "not-freed", "%s: value #%d was not freed", op, v->serial);
    else { mc_check(v->state == IN_TABLE, "free-not-owned", "%s: value state", op); v->state = OUTSIDE; }
}
static void handed_back(struct obj *k, struct obj *v, const char *op)
{
    if (!own) return;
    if (k) { mc_check(k->state == IN_TABLE, "freed-overwritten", "%s: overwritten key #%d was freed by the table", op, k->serial); k->state = OUTSIDE; }
    if (v) { mc_check(v->state == IN_TABLE, "freed-overwritten", "%s: overwritten value #%d was freed by the table", op, v->serial); v->state = OUTSIDE; }
}

/* ---- full comparison ---- */
static int  vis;
static enum cork_hash_table_map_result visit(void *ud, struct cork_hash_table_entry *e)
{
    mc_check(ud == &mapper_token, "userdata", "map callback got the wrong user data");
    mc_check(vis < mn, "map-extra", "map visits more than the %d entries", mn);
    mc_check(ko(e->key) == m[vis].key && e->value == m[vis].val, "map-order",
             "map position %d: expected id %d", vis, m[vis].id);
    vis++;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}

static bool  in_universe(int id) { return id < cfg_prefill + cfg_keys + 1; }

static void verify(void)
{
    struct cork_hash_table_iterator  it;
    struct cork_hash_table_entry  *e;
    int  i, id;
    mc_check(cork_hash_table_size(t) == (size_t) mn, "size", "size is %zu, expected %d",
             cork_hash_table_size(t), mn);
    cork_hash_table_iterator_init(t, &it);
    for (i = 0; (e = cork_hash_table_iterator_next(&it)) != NULL; i++) {
        mc_check(i < mn, "iter-extra", "iterator returns more than %d entries", mn);
        mc_check(ko(e->key) == m[i].key && e->value == m[i].val, "iter-order",
                 "iterator position %d: got id %d, expected id %d", i,
                 ko(e->key) ? ko(e->key)->id : -1, m[i].id);
    }
    mc_check(i == mn, "iter-short", "iterator returned %d of %d entries", i, mn);
    mc_check(cork_hash_table_iterator_next(&it) == NULL, "iter-after-end", "iterator continues after the end");
    vis = 0;
    cork_hash_table_map(t, &mapper_token, visit);
    mc_check(vis == mn, "map-short", "map visited %d of %d entries", vis, mn);
    for (id = 0; in_universe(id); id++) {
        struct obj  probe = { id, 9, OUTSIDE, -1, "" };
        void  *pk;
        struct ment  *me;
        snprintf(probe.s, sizeof probe.s, "key%d", id);
        i = find(id);
        me = i < 0 ? NULL : &m[i];
        pk = cfg_kind == 2 ? (ptrkey[id] ? (void *) ptrkey[id] : (void *) &probe) : kp(&probe);
        mc_check(cork_hash_table_get(t, pk) == (me ? me->val : NULL), "get", "get(id %d) is wrong", id);
        e = cork_hash_table_get_entry(t, pk);
        mc_check((e != NULL) == (me != NULL), "get-entry", "get_entry(id %d) %s", id, e ? "found a deleted/absent key" : "lost the key");
        if (e) mc_check(ko(e->key) == me->key && e->value == me->val, "get-entry", "get_entry(id %d) has wrong contents", id);
        if (cfg_kind == 0) {
            mc_check(cork_hash_table_get_hash(t, hash_of(id), pk) == (me ? me->val : NULL), "get", "get_hash(id %d) is wrong", id);
            mc_check(cork_hash_table_get_entry_hash(t, hash_of(id), pk) == e, "get-entry", "get_entry_hash(id %d) differs from get_entry", id);
            if (e) mc_check(e->hash == hash_of(id), "entry-hash", "entry hash field of id %d is wrong", id);
        }
    }
    if (own && mn == 0 && 0) {}
}

static uint64_t state_hash(void)
{
    uint64_t  h = mc_h(cfg_kind * 16 + cfg_hash, mc_thorough);
    int  i;
    h = mc_h(h, cfg_prefill * 8 + cfg_free);
    h = mc_h(h, max_ensure);
    h = mc_h(h, max_count);
    for (i = 0; i < mn; i++) {
        h = mc_h(h, m[i].id * 4 + (m[i].val ? 1 + (m[i].val->variant & 1) : 0));
    }
    return h;
}

/* ---- operations ---- */
static void m_put(int id, struct obj *k, struct obj *v)
{
    int  i = find(id);
    if (i >= 0) { m[i].key = k; m[i].val = v; }
    else { m[mn].id = id; m[mn].key = k; m[mn].val = v; mn++; }
    k->state = IN_TABLE;
    if (v) v->state = IN_TABLE;
    if (mn > max_count) max_count = mn;
}

static void op_put(int id, bool outs, int nullval)
{
    struct obj  *k = mkkey(id), *v = nullval ? NULL : mk(1000 + id, find(id) >= 0 ? 1 : 0);
    int  i = find(id);
    struct obj  *okk = i < 0 ? NULL : m[i].key, *okv = i < 0 ? NULL : m[i].val;
    void  *old_key = (void *) 0x11, *old_val = (void *) 0x22;
    bool  is_new = i >= 0;
    mc_log("put(id %d, key #%d, value %s%d)%s", id, k->serial, v ? "#" : "", v ? v->serial : 0,
           outs ? " with out-parameters" : "");
    if (outs) {
        if (cfg_kind == 0 && (id & 1))
            cork_hash_table_put_hash(t, hash_of(id), kp(k), v, &is_new, &old_key, &old_val);
        else
            cork_hash_table_put(t, kp(k), v, &is_new, &old_key, &old_val);
        mc_check(is_new == (i < 0), "put-is-new", "put reported is_new=%d for %s key %d", is_new, i < 0 ? "a new" : "an existing", id);
        mc_check(ko(old_key) == okk && old_val == okv, "put-old", "put(id %d) returned wrong old key/value", id);
    } else {
        if (cfg_kind == 0 && (id & 1))
            cork_hash_table_put_hash(t, hash_of(id), kp(k), v, NULL, NULL, NULL);
        else
            cork_hash_table_put(t, kp(k), v, NULL, NULL, NULL);
    }
    handed_back(okk, okv, "put");
    m_put(id, k, v);
}

static void op_goc(int id)
{
    struct obj  *k = mkkey(id), *v = mk(1000 + id, 2);
    int  i = find(id);
    bool  is_new = i >= 0;
    struct cork_hash_table_entry  *e;
    mc_log("get_or_create(id %d)", id);
    if (cfg_kind == 0 && (id & 1)) e = cork_hash_table_get_or_create_hash(t, hash_of(id), kp(k), &is_new);
    else e = cork_hash_table_get_or_create(t, kp(k), &is_new);
    mc_check(is_new == (i < 0), "goc-is-new", "get_or_create(id %d) is_new=%d", id, is_new);
    mc_check(e != NULL, "goc-null", "get_or_create returned NULL");
    if (i < 0) {
        mc_check(e->value == NULL, "goc-value", "new entry has a value");
        mc_check(ko(e->key) == k, "goc-key", "new entry has another key");
        if (cfg_kind == 0) {       /* documented idiom: replace the stack key */
            struct obj  *k2 = mkkey(id);
            e->key = kp(k2);
            k = k2;
        }
        e->value = v;
        m_put(id, k, v);
    } else {
        mc_check(ko(e->key) == m[i].key && e->value == m[i].val, "goc-existing", "existing entry contents wrong");
        handed_back(NULL, m[i].val, "update");
        e->value = v;
        m[i].val = v;
        v->state = IN_TABLE;
    }
}

static void op_delete(int id, int how)
{
    int  i = find(id);
    struct obj  *okk = i < 0 ? NULL : m[i].key, *okv = i < 0 ? NULL : m[i].val;
    struct obj  probe = { id, 9, OUTSIDE, -1, "" };
    void  *pk, *dk = (void *) 0x11, *dv = (void *) 0x22;
    bool  r;
    snprintf(probe.s, sizeof probe.s, "key%d", id);
    /* how 0: by an equal probe, out-parameters; 1: by the stored key; 2: delete_entry */
    pk = cfg_kind == 2 ? (ptrkey[id] ? (void *) ptrkey[id] : (void *) &probe)
        : (how == 1 && okk) ? kp(okk) : kp(&probe);
    if (how == 2) {
        struct cork_hash_table_entry  *e = cork_hash_table_get_entry(t, pk);
        mc_log("delete_entry(id %d)", id);
        if (i < 0) { mc_check(e == NULL, "get-entry", "absent key found"); return; }
        mc_check(e != NULL, "get-entry", "key lost");
        cork_hash_table_delete_entry(t, e);
    } else {
        void  **pdk = (how == 0 && !(cfg_free & 1)) ? &dk : NULL;
        void  **pdv = (how == 0 && !(cfg_free & 2)) ? &dv : NULL;
        mc_log("delete(id %d) by %s", id, how ? "stored key" : "equal key");
        if (cfg_kind == 0 && (id & 1)) r = cork_hash_table_delete_hash(t, hash_of(id), pk, pdk, pdv);
        else r = cork_hash_table_delete(t, pk, pdk, pdv);
        mc_check(r == (i >= 0), "delete-result", "delete(id %d) returned %d", id, r);
        if (r) {
            if (pdk) mc_check(ko(dk) == okk, "delete-key", "delete returned wrong key");
            if (pdv) mc_check(dv == okv, "delete-value", "delete returned wrong value");
        }
    }
    if (i < 0) return;
    dropped(okk, okv, "delete");
    m_remove(i);
}

static void op_clear(void)
{
    int  i;
    mc_log("clear");
    cork_hash_table_clear(t);
    for (i = 0; i < mn; i++) dropped(m[i].key, m[i].val, "clear");
    mn = 0;
}

/* map with chosen results */
static int  map_pos, map_orig, map_calls, map_stop, map_maxch;
static struct ment  deleted[NK * 2];
static int  ndeleted;
static enum cork_hash_table_map_result chooser(void *ud, struct cork_hash_table_entry *e)
{
    int  c;
    mc_check(ud == &mapper_token, "userdata", "map callback got the wrong user data");
    mc_check(!map_stop, "map-abort", "map continued after ABORT");
    mc_check(map_pos < mn, "map-extra", "map visits too many entries");
    mc_check(ko(e->key) == m[map_pos].key && e->value == m[map_pos].val, "map-order",
             "map call %d: wrong entry (expected id %d)", map_calls, m[map_pos].id);
    c = (map_calls < map_maxch || map_calls == map_orig - 1) ? mc_choose(3) : 0;
    map_calls++;
    mc_log("  map callback id %d -> %s", m[map_pos].id, c == 0 ? "CONTINUE" : c == 1 ? "DELETE" : "ABORT");
    if (c == 0) { map_pos++; return CORK_HASH_TABLE_MAP_CONTINUE; }
    if (c == 2) { map_stop = 1; return CORK_HASH_TABLE_MAP_ABORT; }
    deleted[ndeleted++] = m[map_pos];
    m_remove(map_pos);
    return CORK_HASH_TABLE_MAP_DELETE;
}
static void op_map(void)
{
    int  i;
    map_pos = map_calls = map_stop = ndeleted = 0;
    map_orig = mn;
    map_maxch = cfg_prefill ? 1 : 2;
    mc_log("map");
    cork_hash_table_map(t, &mapper_token, chooser);
    mc_check(map_stop || map_calls == map_orig, "map-short", "map made %d calls for %d entries", map_calls, map_orig);
    for (i = 0; i < ndeleted; i++) dropped(deleted[i].key, deleted[i].val, "map delete");
}

static const int  ens[] = { 9, 17, 64 };

static void cleanup_objs(void)
{
    int  i;
    for (i = 0; i < nall; i++) free(all[i]);
    nall = 0;
}

static void do_op(void)
{
    int  nb = own ? 6 : 7;
    /* keys of the alphabet: first prefilled, a middle one, and new ones */
    int  op = mc_choose(nb * cfg_keys + 5), k, id;
    if (op < nb * cfg_keys) {
        k = op % cfg_keys;
        if (cfg_prefill == 0) id = k;
        else id = k == 0 ? 0 : k == 1 ? cfg_prefill / 2 : cfg_prefill + k - 2;
        switch (op / cfg_keys) {
            case 0: op_put(id, true, 0); break;
            case 1: op_delete(id, 0); break;
            case 2: op_goc(id); break;
            case 3: op_delete(id, 2); break;
            case 4: op_put(id, false, 0); break;
            case 5: op_delete(id, 1); break;
            case 6: op_put(id, true, 1); break;
        }
    } else {
        switch (op - nb * cfg_keys) {
            case 0: op_clear(); break;
            case 1: op_map(); break;
            default: {
                size_t  n = ens[op - nb * cfg_keys - 2];
                mc_log("ensure_size(%zu)", n);
                cork_hash_table_ensure_size(t, n);
                if (n > max_ensure) max_ensure = n;
            }
        }
    }
    mc_step();
}

/* a whole life of a large table; each pattern is a choice */
static int  big_n, big_step, big_calls;
static int big_id(int i) { return (long) i * big_step % big_n; }
static enum cork_hash_table_map_result big_map(void *ud, struct cork_hash_table_entry *e)
{
    mc_check(ud == &mapper_token, "userdata", "map callback got the wrong user data");
    mc_check(map_pos < mn && ko(e->key) == m[map_pos].key && e->value == m[map_pos].val, "map-order", "map call %d: wrong entry", big_calls);
    if (++big_calls % 3 != 0) { map_pos++; return CORK_HASH_TABLE_MAP_CONTINUE; }
    deleted[ndeleted++] = m[map_pos];
    m_remove(map_pos);
    return CORK_HASH_TABLE_MAP_DELETE;
}
static void big(void)
{
    static const int  steps[] = { 1, 7, -1 };       /* coprime to n, or downwards */
    int  i, d, phase;
    big_step = steps[mc_choose(3)];
    if (big_step == -1) big_step = big_n - 1;
    d = mc_choose(4);
    for (i = 0; i < big_n; i++) { if (i % 3 == 2) op_goc(big_id(i)); else op_put(big_id(i), i & 1, 0); mc_step(); if ((i & (i + 1)) == 0) verify(); }
    verify();
    for (phase = 0; phase < 2; phase++) {
        switch (d) {
            case 0: for (i = 0; i < big_n; i += 2) op_delete(i, i / 2 % 3); break;
            case 1: for (i = 0; i < big_n - 1; i++) op_delete(big_id(i), i % 3); break;
            case 2:
                map_pos = big_calls = ndeleted = 0;
                cork_hash_table_map(t, &mapper_token, big_map);
                for (i = 0; i < ndeleted; i++) dropped(deleted[i].key, deleted[i].val, "map delete");
                break;
            case 3: if (phase) op_clear(); else for (i = big_n - 1; i > big_n / 2; i--) op_delete(i, i % 3); break;
        }
        mc_step();
        verify();
        if (phase == 0 && d != 3) cork_hash_table_ensure_size(t, big_n * 2);
        for (i = 0; i < big_n; i += 1 + phase) { op_put(i, true, 0); mc_step(); }
        verify();
    }
}

/* ---- tens of thousands of entries: which are there is an array, and their order is that of insertion ---- */
static long  *hk;
static int  h_freedk, h_freedv, h_pos, h_n;
static unsigned char  *h_in;
static cork_hash h_hash(void *ud, const void *k) { (void) ud; return cork_stable_hash_buffer(0, k, sizeof(long)); }
static bool h_equals(void *ud, const void *a, const void *b) { (void) ud; return *(const long *) a == *(const long *) b; }
static void h_fk(void *p) { (void) p; h_freedk++; }
static void h_fv(void *p) { (void) p; h_freedv++; }
static void h_next(void) { while (h_pos < h_n && !h_in[h_pos]) h_pos++; }
static enum cork_hash_table_map_result h_map(void *ud, struct cork_hash_table_entry *e)
{
    (void) ud;
    h_next();
    mc_check(h_pos < h_n && e->key == &hk[h_pos] && e->value == &hk[h_pos] + 1, "map-order", "entry %d isn't the next one", h_pos);
    h_pos++;
    return CORK_HASH_TABLE_MAP_CONTINUE;
}
static void huge_check(struct cork_hash_table *h, int count, const char *what)
{
    struct cork_hash_table_iterator  it;
    struct cork_hash_table_entry  *e;
    int  i;
    mc_check(cork_hash_table_size(h) == (size_t) count, "size", "%s: size is %zu, expected %d", what, cork_hash_table_size(h), count);
    for (i = 0; i < h_n; i++) {
        void  *v = cork_hash_table_get(h, &hk[i]);
        mc_check(v == (h_in[i] ? &hk[i] + 1 : NULL), "get", "%s: key %d of %d is %s", what, i, h_n, v ? "there" : "missing");
    }
    h_pos = 0;
    cork_hash_table_map(h, NULL, h_map);
    h_next();
    mc_check(h_pos == h_n, "map-short", "%s: entry %d isn't visited", what, h_pos);
    cork_hash_table_iterator_init(h, &it);
    h_pos = 0;
    while ((e = cork_hash_table_iterator_next(&it)) != NULL) { h_map(NULL, e); }
    h_next();
    mc_check(h_pos == h_n, "iterate-short", "%s: entry %d isn't iterated over", what, h_pos);
}
static void huge(int var)
{
    struct cork_hash_table  *h;
    int  i, in = 0, out = 0, init = mc_choose(3);
    bool  isnew;
    h_n = var < 2 ? 70000 : 140000;
    hk = calloc(h_n + 1, sizeof *hk); h_in = calloc(h_n, 1);
    h_freedk = h_freedv = 0;
    for (i = 0; i <= h_n; i++) hk[i] = i * 7919L;
    h = var % 2 ? cork_pointer_hash_table_new(0, 0) : cork_hash_table_new(init == 1 ? 70000 : 0, 0);
    if (var % 2 == 0) { cork_hash_table_set_hash(h, h_hash); cork_hash_table_set_equals(h, h_equals); }
    cork_hash_table_set_free_key(h, h_fk); cork_hash_table_set_free_value(h, h_fv);
    if (init == 2) cork_hash_table_ensure_size(h, 66000);
    for (i = 0; i < h_n; i++) {
        void  *ok, *ov;
        mc_check(cork_hash_table_get(h, &hk[i]) == NULL, "get", "key %d is there before it's put", i);
        isnew = false;
        if (i % 4 == 1) { struct cork_hash_table_entry  *e = cork_hash_table_get_or_create(h, &hk[i], &isnew); mc_check(isnew && e->key == &hk[i], "create", "key %d of %d isn't created", i, h_n); e->value = &hk[i] + 1; }
        else { cork_hash_table_put(h, &hk[i], &hk[i] + 1, &isnew, &ok, &ov); mc_check(isnew && ok == NULL && ov == NULL, "put-new", "key %d of %d isn't new", i, h_n); }
        h_in[i] = 1; in++;
    }
    huge_check(h, in, "after putting");
    for (i = 0; i < h_n; i++) {
        void  *dk = NULL, *dv = NULL;
        if (i % 3 == 0) continue;
        mc_check(cork_hash_table_delete(h, &hk[i], &dk, &dv) && dk == &hk[i] && dv == &hk[i] + 1, "delete", "key %d of %d isn't deleted", i, h_n);
        h_in[i] = 0; in--; out++;
    }
    mc_check(h_freedk == out && h_freedv == out, "freed", "%d keys, %d values are freed for %d deleted", h_freedk, h_freedv, out);
    huge_check(h, in, "after deleting");
    cork_hash_table_ensure_size(h, 131073);
    huge_check(h, in, "after making room");
    for (i = 0; i < h_n; i += 6) { cork_hash_table_delete(h, &hk[i], NULL, NULL); h_in[i] = 0; in--; out++; }
    mc_check(h_freedk == out && h_freedv == out, "freed", "%d keys, %d values are freed for %d deleted", h_freedk, h_freedv, out);
    huge_check(h, in, "after deleting more");
    cork_hash_table_clear(h);
    mc_check(h_freedk == h_n && h_freedv == h_n, "freed", "%d keys, %d values of %d are freed", h_freedk, h_freedv, h_n);
    memset(h_in, 0, h_n);
    huge_check(h, 0, "after clearing");
    cork_hash_table_free(h);
    mc_steps(h_n);
    mc_state(mc_h(var, init));
    free(hk); free(h_in);
}

void mc_init(void)
{
    setup();
    mc_unpruned = MC_T(3, 4);
    track_install();
}

void mc_run(int root)
{
    struct cfg  bc, *c = &cfgs[root];
    int  i, d;
    size_t  base = track_live();
    if (root >= ncfg + NBIG) { huge(root - ncfg - NBIG); mc_check(track_live() == base, "leak", "%zu blocks left", track_live() - base); return; }
    if (root >= ncfg) {
        const struct cfg  x = { bigs[root - ncfg].kind, bigs[root - ncfg].hash, 0, bigs[root - ncfg].init, 0, 0, 0, own ? mc_choose(bigs[root - ncfg].kind ? 4 : 8) : 0 };
        bc = x; c = &bc;
        big_n = own && bigs[root - ncfg].n > 500 ? 500 : bigs[root - ncfg].n;
        c->keys = big_n;
    }
    cfg_kind = c->kind; cfg_hash = c->hash; cfg_prefill = c->prefill; cfg_depth = c->depth;
    cfg_keys = c->keys; cfg_prune = c->prune; cfg_free = c->free; cfg_init = c->init;
    mn = 0; max_ensure = c->init; max_count = 0; serial = 0; ud_freed = 0; ud_first_freed = 0;
    freed_keys = freed_vals = 0;
    memset(ptrkey, 0, sizeof ptrkey);
    t = cfg_kind == 1 ? cork_string_hash_table_new(c->init, 0)
        : cfg_kind == 2 ? cork_pointer_hash_table_new(c->init, 0)
        : cork_hash_table_new(c->init, 0);
    if (cfg_kind == 0) {
        if (cfg_free & 1) cork_hash_table_set_user_data(t, &ud_first, free_ud_first);     /* to be replaced */
        cork_hash_table_set_user_data(t, &ud_token, (cfg_free & 4) ? free_ud : NULL);
        mc_check(ud_first_freed == (cfg_free & 1), "userdata-free", "replaced user data was freed %d times", ud_first_freed);
        cork_hash_table_set_hash(t, custom_hash);
        cork_hash_table_set_equals(t, custom_equals);
    }
    if (own) {
        if (cfg_free & 1) cork_hash_table_set_free_key(t, free_key);
        if (cfg_free & 2) cork_hash_table_set_free_value(t, free_val);
    }
    for (i = 0; i < cfg_prefill; i++) {
        struct obj  *k = mkkey(i), *v = mk(1000 + i, 0);
        cork_hash_table_put(t, kp(k), v, NULL, NULL, NULL);
        m_put(i, k, v);
    }
    verify();
    for (d = 0; d < cfg_depth; d++) {
        do_op();
        verify();
        if (cfg_prune) {
            if (mc_seen(state_hash(), cfg_depth - d - 1)) break;
        } else mc_state(state_hash());
    }
    if (root >= ncfg) big();
    if (mn == 0) mc_cover("ends-empty"); else mc_cover("ends-nonempty");
    cork_hash_table_free(t);
    mc_step();
    if (own) {
        for (i = 0; i < mn; i++) dropped(m[i].key, m[i].val, "free");
        mc_check(ud_freed == ((cfg_free & 4) && cfg_kind == 0 ? 1 : 0), "free-user-data",
                 "free_user_data ran %d times", ud_freed);
        if (freed_keys) mc_cover("keys-freed");
        if (freed_vals) mc_cover("values-freed");
        mc_check(track_live() == base, "leak", "the table leaves %zu blocks behind", track_live() - base);
    }
    cleanup_objs();
}
