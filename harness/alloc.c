/* C15: every allocation function, with every position of a failing underlying allocation,
 * on every allocator stack. */
#include <sys/wait.h>
#include <libcork/core.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

/* ---- the memory underneath: malloc & co. as called by the library ---- */
static struct blk { void *p; size_t n; bool live; }  blks[64];
static int  nblk, nlive, fail_at, calls, failed;
static bool  bad_free;
static void *got(size_t n, bool zero)
{
    void  *p;
    calls++;
    if (fail_at && calls >= fail_at) { failed++; return NULL; }
    if (n > ((size_t) 1 << 31)) { failed++; return NULL; }
    p = (malloc)(n);
    memset(p, zero ? 0 : 0xa5, n);
    if (nblk == 64) mc_internal("too many blocks");
    blks[nblk].p = p; blks[nblk].n = n; blks[nblk].live = true; nblk++; nlive++;
    return p;
}
static struct blk *find(void *p)
{
    int  i;
    for (i = nblk - 1; i >= 0; i--) if (blks[i].p == p && blks[i].live) return &blks[i];
    return NULL;
}
static void give(void *p)
{
    struct blk  *b;
    if (p == NULL) return;
    b = find(p);
    if (b == NULL) { bad_free = true; mc_fail("free-foreign", "memory that is not a live block is freed"); }
    memset(p, 0xdd, b->n);
    b->live = false; nlive--;
    /* not given back to the C library, so that addresses stay unique */
}
static void *regot(void *p, size_t n)
{
    struct blk  *b;
    void  *q;
    if (p == NULL) return got(n, false);
    b = find(p);
    if (b == NULL) mc_fail("realloc-foreign", "memory that is not a live block is reallocated");
    if (n == 0) { give(p); return NULL; }       /* what glibc does */
    q = got(n, false);
    if (q == NULL) return NULL;
    memcpy(q, p, b->n < n ? b->n : n);
    give(p);
    return q;
}
void *mcw_malloc(size_t n) { return got(n, false); }
void *mcw_calloc(size_t c, size_t n) { if (n && c > SIZE_MAX / n) { calls++; failed++; return NULL; } return got(c * n, true); }
void *mcw_realloc(void *p, size_t n) { return regot(p, n); }
void mcw_free(void *p) { give(p); }

/* a custom allocator over the same blocks; checks sizes */
static void sized_free(const struct cork_alloc *a, void *p, size_t n)
{
    struct blk  *b = p ? find(p) : NULL;
    if (p == NULL) mc_fail("free-null", "a custom free method is given NULL");
    mc_check(b != NULL, "free-foreign", "memory that is not a live block is freed");
    mc_check(b->n == n, "free-size", "a block of %zu bytes is freed with size %zu", b->n, n);
    give(p);
}
static void *c_xmalloc(const struct cork_alloc *a, size_t n) { return got(n, false); }
static void *c_xcalloc(const struct cork_alloc *a, size_t c, size_t n) { return mcw_calloc(c, n); }
static void *c_xrealloc(const struct cork_alloc *a, void *p, size_t o, size_t n)
{
    if (p) mc_check(find(p) && find(p)->n == o, "realloc-size", "a block of %zu bytes is reallocated with old size %zu", find(p) ? find(p)->n : 0, o);
    if (p && n == 0) { void  *q = got(0, false); if (q) give(p); return q; }
    return regot(p, n);
}
static const char *stacks[] = { "stdlib", "custom (xmalloc)", "custom (xmalloc, xcalloc)", "custom (xmalloc, xrealloc)", "custom (all x)",
    "debug over stdlib", "debug over custom (xmalloc)", "debug over custom (all x)", "debug over debug" };
#define NSTACK 9
#define CUSTOM_SIZED(k)  ((k) != 0)
static const struct cork_alloc *stack(int k)
{
    struct cork_alloc  *a;
    const struct cork_alloc  *def = cork_allocator;
    if (k == 0) return def;
    if (k == 5) return cork_debug_alloc_new(def);
    if (k == 8) return cork_debug_alloc_new(cork_debug_alloc_new(def));
    a = cork_alloc_new_alloc(def);
    cork_alloc_set_xmalloc(a, c_xmalloc);
    cork_alloc_set_free(a, sized_free);
    if (k == 2 || k == 4 || k == 7) cork_alloc_set_xcalloc(a, c_xcalloc);
    if (k == 3) cork_alloc_set_xrealloc(a, c_xrealloc);
    if (k == 4) cork_alloc_set_xrealloc(a, c_xrealloc);
    if (k == 6 || k == 7) a = cork_debug_alloc_new(a);
    return a;
}
static const struct cork_alloc  *al[NSTACK];

enum { CALLOC, MALLOC, REALLOC, NEW, STRDUP, STRNDUP, XCALLOC, XMALLOC, XREALLOC, XREALLOCF, XNEW, XSTRDUP, XSTRNDUP, NF };
static const char *fnames[] = { "calloc", "malloc", "realloc", "new", "strdup", "strndup", "xcalloc", "xmalloc", "xrealloc", "xreallocf", "xnew", "xstrdup", "xstrndup" };
int mc_roots(void) { return NSTACK * NF; }
void mc_root_name(int r, char *b, size_t n) { snprintf(b, n, "%s, %s", fnames[r % NF], stacks[r / NF]); }
void mc_init(void) { int k; for (k = 0; k < NSTACK; k++) al[k] = stack(k); }

struct thing { long a[5]; };
/* One call of a function, through the allocator itself or the current-allocator wrappers. */
struct call { int f; bool cur; const struct cork_alloc *a; void *old; size_t n0, n1; const char *s; void *r; bool returned; };
static struct call  C;
static void *do_call(void)
{
    const struct cork_alloc  *a = C.a;
    cork_allocator = a;
    switch (C.f) {
        case CALLOC:  return C.cur ? cork_calloc(C.n0, C.n1) : cork_alloc_calloc(a, C.n0, C.n1);
        case MALLOC:  return C.cur ? cork_malloc(C.n1) : cork_alloc_malloc(a, C.n1);
        case REALLOC: return C.cur ? cork_realloc(C.old, C.n0, C.n1) : cork_alloc_realloc(a, C.old, C.n0, C.n1);
        case NEW:     return C.cur ? cork_new(struct thing) : cork_alloc_new(a, struct thing);
        case STRDUP:  return (void *) (C.cur ? cork_strdup(C.s) : cork_alloc_strdup(a, C.s));
        case STRNDUP: return (void *) (C.cur ? cork_strndup(C.s, C.n1) : cork_alloc_strndup(a, C.s, C.n1));
        case XCALLOC: return C.cur ? cork_xcalloc(C.n0, C.n1) : cork_alloc_xcalloc(a, C.n0, C.n1);
        case XMALLOC: return C.cur ? cork_xmalloc(C.n1) : cork_alloc_xmalloc(a, C.n1);
        case XREALLOC: return C.cur ? cork_xrealloc(C.old, C.n0, C.n1) : cork_alloc_xrealloc(a, C.old, C.n0, C.n1);
        case XREALLOCF: return C.cur ? cork_xreallocf(C.old, C.n0, C.n1) : cork_alloc_xreallocf(a, C.old, C.n0, C.n1);
        case XNEW:    return C.cur ? cork_xnew(struct thing) : cork_alloc_xnew(a, struct thing);
        case XSTRDUP: return (void *) (C.cur ? cork_xstrdup(C.s) : cork_alloc_xstrdup(a, C.s));
        case XSTRNDUP: return (void *) (C.cur ? cork_xstrndup(C.s, C.n1) : cork_alloc_xstrndup(a, C.s, C.n1));
    }
    return NULL;
}
static void in_child(void *ud)
{
    mc_silence();
    C.r = do_call();
    /* Getting here is right only if no failure was needed. */
    _exit(C.r == NULL ? 40 : 41);
}
static const size_t  sizes[] = { 0, 1, 7, 8, 9, 100, (size_t) 1 << 40, SIZE_MAX - 7, SIZE_MAX };
static const struct { size_t c, n; }  counts[] = { { 0, 0 }, { 0, 8 }, { 3, 0 }, { 1, 1 }, { 3, 7 }, { 16, 16 }, { SIZE_MAX, 2 }, { 2, SIZE_MAX },
    { SIZE_MAX / 2 + 1, 2 }, { (size_t) 1 << 32, (size_t) 1 << 32 }, { ((size_t) 1 << 32) + 1, (size_t) 1 << 32 }, { SIZE_MAX / 8 + 1, 8 }, { SIZE_MAX, 1 }, { 1, SIZE_MAX }, { SIZE_MAX / 3, 3 } };
static const char *strs[] = { "", "a", "sevenby", "eight by", "long enough to need more than one word, or several" };

void mc_run(int root)
{
    int  k = root / NF, i;
    size_t  want = 0, keep = 0, j;
    bool  guaranteed, must_fail, is_re, is_str, zero;
    unsigned char  *r;
    nblk = nlive = calls = failed = 0;
    fail_at = 0;
    memset(&C, 0, sizeof C);
    C.f = root % NF;
    C.a = al[k];
    C.cur = mc_choose(2);
    guaranteed = C.f <= STRNDUP;
    is_re = C.f == REALLOC || C.f == XREALLOC || C.f == XREALLOCF;
    is_str = C.f == STRDUP || C.f == XSTRDUP || C.f == STRNDUP || C.f == XSTRNDUP;
    zero = C.f == CALLOC || C.f == XCALLOC;
    must_fail = false;
    switch (C.f) {
        case CALLOC: case XCALLOC:
            i = mc_choose(sizeof counts / sizeof counts[0]);
            C.n0 = counts[i].c; C.n1 = counts[i].n;
            if (C.n1 && C.n0 > SIZE_MAX / C.n1) { must_fail = true; mc_cover("count * size overflows"); }
            want = C.n0 * C.n1;
            break;
        case MALLOC: case XMALLOC: want = C.n1 = sizes[mc_choose(9)]; break;
        case NEW: case XNEW: want = sizeof(struct thing); break;
        case STRDUP: case XSTRDUP: C.s = strs[mc_choose(5)]; want = strlen(C.s) + 1; break;
        case STRNDUP: case XSTRNDUP: C.s = strs[mc_choose(5)]; C.n1 = mc_choose(strlen(C.s) + 1); want = C.n1 + 1; break;
        default: {
            static const size_t  olds[] = { SIZE_MAX, 0, 1, 8, 30 };
            i = mc_choose(5);
            C.n1 = want = sizes[mc_choose(9)];
            if (i) {
                C.n0 = olds[i];
                C.old = cork_alloc_malloc(C.a, C.n0);
                for (j = 0; j < C.n0; j++) ((char *) C.old)[j] = 'A' + j;
            }
            keep = C.n0 < C.n1 ? C.n0 : C.n1; }
    }
    if (want > ((size_t) 1 << 31)) must_fail = true;
    calls = failed = 0;
    if (!must_fail) fail_at = mc_choose(3);     /* 0: never, else every call from the n-th on */
    {
        int  before = nlive;
        mc_step();
        mc_log("%s%s(%zu, %zu, %s), failing from allocation %d on", C.cur ? "cork_" : "cork_alloc_", fnames[C.f], C.n0, C.n1, C.s ? C.s : C.old ? "a block" : "-", fail_at);
        if (guaranteed && (must_fail || fail_at)) {
            int  st;
            mc_crash_key("guaranteed");
            st = mc_in_child_raw(in_child, NULL);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 41 && !must_fail && fail_at > 1) { mc_cover("no second allocation needed"); fail_at = 0; }
            else {
                mc_check(!(WIFEXITED(st) && WEXITSTATUS(st) == 40), "guaranteed-null", "%s returns NULL when allocation fails", fnames[C.f]);
                mc_check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "guaranteed-no-abort", "%s doesn't abort when allocation fails (status 0x%x)", fnames[C.f], st);
                mc_cover("aborts");
                goto cleanup;
            }
        }
        mc_crash_key("call");
        r = do_call();
        if (failed) {
            mc_cover("returns NULL");
            mc_check(!guaranteed, "internal", "unexpected");
            mc_check(r == NULL, "non-null", "%s returns a pointer although the allocation it needs failed", fnames[C.f]);
        } else if (must_fail) {
            mc_check(r == NULL, "overflow", "%s(%zu, %zu) succeeds", fnames[C.f], C.n0, C.n1);
        } else mc_check(r != NULL, "null", "%s(%zu, %zu) returns NULL although nothing failed", fnames[C.f], C.n0, C.n1);
        if (r == NULL) {
            if (C.f == XREALLOCF && C.old) {
                mc_check(nlive == before - 1, "reallocf-leak", "xreallocf fails and %s", nlive >= before ? "keeps the old block" : "frees too much");
                C.old = NULL;
            } else {
                mc_check(nlive == before, "fail-live", "a failing %s leaves %d more blocks than before", fnames[C.f], nlive - before);
                for (j = 0; is_re && C.old && j < C.n0; j++)
                    mc_check(((char *) C.old)[j] == (char) ('A' + j), "old-changed", "a failing %s changed the old block", fnames[C.f]);
            }
            goto cleanup;
        }
        mc_cover("succeeds");
        mc_check(nlive == before + (C.old ? 0 : 1), "live", "%s leaves %d more blocks than before", fnames[C.f], nlive - before);
        if (zero) for (j = 0; j < want; j++) mc_check(r[j] == 0, "not-zeroed", "byte %zu of %s(%zu, %zu) is not zero", j, fnames[C.f], C.n0, C.n1);
        if (is_re) {
            for (j = 0; C.old && j < keep; j++) mc_check(r[j] == (unsigned char) ('A' + j), "prefix", "byte %zu lost when reallocating %zu to %zu bytes", j, C.n0, C.n1);
            C.old = NULL;
        }
        if (is_str) {
            mc_check(memcmp(r, C.s, want - 1) == 0 && r[want - 1] == 0, "string", "%s(\"%s\", %zu) is \"%s\"", fnames[C.f], C.s, C.n1, (char *) r);
            mc_check(cork_strlen((char *) r) == want - 1, "strlen", "cork_strlen is %zu, expected %zu", cork_strlen((char *) r), want - 1);
        }
        if (!is_str) memset(r, 0x11, want);
        fail_at = 0;
        if (is_str) { if (C.cur) cork_strfree((char *) r); else cork_alloc_strfree(C.a, (char *) r); }
        else if (zero) { if (C.cur) cork_cfree(r, C.n0, C.n1); else cork_alloc_cfree(C.a, r, C.n0, C.n1); }
        else if (C.f == NEW || C.f == XNEW) { if (C.cur) cork_delete(struct thing, r); else cork_alloc_delete(C.a, struct thing, r); }
        else if (C.cur) cork_free(r, want); else cork_alloc_free(C.a, r, want);
        mc_check(nlive == 0, "free", "freeing leaves %d blocks", nlive);
    }
cleanup:
    fail_at = 0;
    if (C.old) { cork_alloc_free(C.a, C.old, C.n0); }
    mc_check(nlive == 0, "leak", "%d blocks left", nlive);
    mc_state(mc_h(mc_h(root, want), fail_at * 16 + C.n0));
    cork_allocator = al[0];
    for (i = 0; i < nblk; i++) (free)(blks[i].p);
}
