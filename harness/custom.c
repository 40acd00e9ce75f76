/* C37: custom allocators: every call reaches exactly the methods that were installed, the debugging
 * allocator notices every wrong size, and instances are freed, last created first, at exit. */
#include <sys/mman.h>
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/os.h>
#include <libcork/os/process.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

enum { CALLOC, MALLOC, REALLOC, XCALLOC, XMALLOC, XREALLOC, FREE, NMETH };
static const char *mname[] = { "calloc", "malloc", "realloc", "xcalloc", "xmalloc", "xrealloc", "free" };
#define NA 5
#define STD  NA                 /* memory straight from the C library, as the library asks for it */
static struct cork_alloc  *al[NA];
static int  na;

/* ---- what happened, shared with children ---- */
#define NB 256
#define NL 256
static struct shared {
    struct { void *p; size_t n; int owner, live; }  b[NB];
    int  nb;
    struct { int what, who; const void *p; size_t a, b; void *r; }  log[NL];
    int  nlog, bad;
    const void  *inst[NA];     /* where each allocator is */
    char  msg[300];
} *sh;
enum { L_CALL, L_UDFREE = 20, L_CLEANUP, L_INST };
#define BAD(...)  do { if (!sh->bad) { sh->bad = 1; snprintf(sh->msg, sizeof sh->msg, __VA_ARGS__); } } while (0)
static bool  logging;
static int  failing;            /* number of recording requests left that succeed, or -1 */
static void note(int what, int who, const void *p, size_t a, size_t b, void *r)
{
    if (!logging) return;
    if (sh->nlog == NL) mc_internal("log full");
    sh->log[sh->nlog].what = what; sh->log[sh->nlog].who = who; sh->log[sh->nlog].p = p;
    sh->log[sh->nlog].a = a; sh->log[sh->nlog].b = b; sh->log[sh->nlog].r = r;
    sh->nlog++;
}
static void *got(int who, size_t n, bool zero)
{
    unsigned char  *p;
    if (failing == 0) return NULL;
    if (failing > 0) failing--;
    p = (malloc)(n + 16);
    memset(p, zero ? 0 : 0xa5, n); memset(p + n, 0xee, 16);
    if (sh->nb == NB) mc_internal("too many blocks");
    sh->b[sh->nb].p = p; sh->b[sh->nb].n = n; sh->b[sh->nb].owner = who; sh->b[sh->nb].live = 1; sh->nb++;
    return p;
}
static int find(const void *p)
{
    int  i;
    for (i = sh->nb - 1; i >= 0; i--) if (sh->b[i].p == p && sh->b[i].live) return i;
    return -1;
}
static void give(int who, void *p, size_t n, bool sized, const char *what)
{
    int  i = find(p), j;
    if (i < 0) { BAD("%s is given memory that isn't a live block", what); return; }
    if (sh->b[i].owner != who) BAD("%s of allocator %d is given a block of allocator %d", what, who, sh->b[i].owner);
    if (sized && sh->b[i].n != n) BAD("%s is given size %zu for a block of %zu bytes", what, n, sh->b[i].n);
    for (j = 0; j < 16; j++) if (((unsigned char *) p)[sh->b[i].n + j] != 0xee) BAD("a block of %zu bytes was written past its end", sh->b[i].n);
    memset(p, 0xdd, sh->b[i].n);
    sh->b[i].live = 0;          /* never reused */
}
static int live(int who)
{
    int  i, k = 0;
    for (i = 0; i < sh->nb; i++) if (sh->b[i].live && (who < 0 || sh->b[i].owner == who)) k++;
    return k;
}
/* the C library's, as the library calls them */
void *mcw_malloc(size_t n) { return got(STD, n, false); }
void *mcw_calloc(size_t c, size_t n) { return got(STD, c * n, true); }
void mcw_free(void *p) { if (p) { note(FREE, STD, p, 0, 0, NULL); give(STD, p, 0, false, "free()"); } }
void *mcw_realloc(void *p, size_t n)
{
    void  *q = got(STD, n, false);
    int  i = p ? find(p) : -1;
    if (q && i >= 0) { memcpy(q, p, sh->b[i].n < n ? sh->b[i].n : n); mcw_free(p); }
    return q;
}

/* ---- the methods we install ---- */
static void  *expect_ud[NA];
static int me(const struct cork_alloc *a, const char *m)
{
    int  i;
    for (i = 0; i < na; i++) if (al[i] == a) break;
    if (i == na) { BAD("%s is called with an allocator that doesn't exist", m); return 0; }
    if (a->user_data != expect_ud[i]) BAD("%s sees user data %p, not %p", m, a->user_data, expect_ud[i]);
    return i;
}
static void stop(const char *m) { note(99, 0, m, 0, 0, NULL); _exit(57); }      /* a guaranteed method doesn't return */
#define METHOD_C(name, id, x)  static void *name(const struct cork_alloc *a, size_t c, size_t n) \
    { int w = me(a, mname[id]); void *r = got(w, c * n, true); note(id, w, NULL, c, n, r); if (!r && !(x)) stop(mname[id]); return r; }
METHOD_C(m_calloc, CALLOC, false)
METHOD_C(m_xcalloc, XCALLOC, true)
#define METHOD_M(name, id, x)  static void *name(const struct cork_alloc *a, size_t n) \
    { int w = me(a, mname[id]); void *r = got(w, n, false); note(id, w, NULL, n, 0, r); if (!r && !(x)) stop(mname[id]); return r; }
METHOD_M(m_malloc, MALLOC, false)
METHOD_M(m_xmalloc, XMALLOC, true)
static void *re(int w, void *p, size_t o, size_t n, const char *m)
{
    void  *q = got(w, n, false);
    if (q && p) { memcpy(q, p, o < n ? o : n); give(w, p, o, true, m); }
    return q;
}
#define METHOD_R(name, id, x)  static void *name(const struct cork_alloc *a, void *p, size_t o, size_t n) \
    { int w = me(a, mname[id]); void *r = re(w, p, o, n, mname[id]); note(id, w, p, o, n, r); if (!r && !(x)) stop(mname[id]); return r; }
METHOD_R(m_realloc, REALLOC, false)
METHOD_R(m_xrealloc, XREALLOC, true)
static void m_free(const struct cork_alloc *a, void *p, size_t n)
{ int w = me(a, mname[FREE]); note(FREE, w, p, n, 0, NULL); give(w, p, n, true, mname[FREE]); }

static void install(struct cork_alloc *a, int mask)
{
    if (mask & 1 << CALLOC) cork_alloc_set_calloc(a, m_calloc);
    if (mask & 1 << MALLOC) cork_alloc_set_malloc(a, m_malloc);
    if (mask & 1 << REALLOC) cork_alloc_set_realloc(a, m_realloc);
    if (mask & 1 << XCALLOC) cork_alloc_set_xcalloc(a, m_xcalloc);
    if (mask & 1 << XMALLOC) cork_alloc_set_xmalloc(a, m_xmalloc);
    if (mask & 1 << XREALLOC) cork_alloc_set_xrealloc(a, m_xrealloc);
    if (mask & 1 << FREE) cork_alloc_set_free(a, m_free);
}
#define REQUIRED  (1 << XMALLOC | 1 << FREE)

/* ---- roots ---- */
#define NDBG 4
static int  D;
int mc_roots(void) { return 128 + NDBG + 5; }
void mc_root_name(int r, char *b, size_t n)
{
    int  i;
    if (r >= 128 + NDBG) { snprintf(b, n, "life of allocators, first parent %d", r - 128 - NDBG); return; }
    if (r >= 128) { snprintf(b, n, "debugging allocator %d", r - 128); return; }
    snprintf(b, n, "methods:");
    for (i = 0; i < NMETH; i++) if (r & 1 << i) snprintf(b + strlen(b), n - strlen(b), " %s", mname[i]);
}
void mc_init(void)
{ sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); D = MC_T(4, 5); }

/* ---- one function, on an allocator with some methods ---- */
enum { O_CALLOC, O_MALLOC, O_REALLOC, O_NEW, O_STRDUP, O_STRNDUP, O_XCALLOC, O_XMALLOC, O_XREALLOC, O_XREALLOCF, O_XNEW, O_XSTRDUP, O_XSTRNDUP, O_FREE, O_CFREE, O_DELETE, O_STRFREE, NO };
static const char *oname[] = { "calloc", "malloc", "realloc", "new", "strdup", "strndup", "xcalloc", "xmalloc", "xrealloc", "xreallocf", "xnew", "xstrdup", "xstrndup", "free", "cfree", "delete", "strfree" };
struct thing { long a[5]; };
static struct { int o; bool cur; size_t c, n; void *old; const char *s; const struct cork_alloc *a; }  C;
static void *call(void)
{
    const struct cork_alloc  *a = C.a;
    switch (C.o) {
        case O_CALLOC:  return C.cur ? cork_calloc(C.c, C.n) : cork_alloc_calloc(a, C.c, C.n);
        case O_MALLOC:  return C.cur ? cork_malloc(C.n) : cork_alloc_malloc(a, C.n);
        case O_REALLOC: return C.cur ? cork_realloc(C.old, C.c, C.n) : cork_alloc_realloc(a, C.old, C.c, C.n);
        case O_NEW:     return C.cur ? cork_new(struct thing) : cork_alloc_new(a, struct thing);
        case O_STRDUP:  return (void *) (C.cur ? cork_strdup(C.s) : cork_alloc_strdup(a, C.s));
        case O_STRNDUP: return (void *) (C.cur ? cork_strndup(C.s, C.n) : cork_alloc_strndup(a, C.s, C.n));
        case O_XCALLOC: return C.cur ? cork_xcalloc(C.c, C.n) : cork_alloc_xcalloc(a, C.c, C.n);
        case O_XMALLOC: return C.cur ? cork_xmalloc(C.n) : cork_alloc_xmalloc(a, C.n);
        case O_XREALLOC: return C.cur ? cork_xrealloc(C.old, C.c, C.n) : cork_alloc_xrealloc(a, C.old, C.c, C.n);
        case O_XREALLOCF: return C.cur ? cork_xreallocf(C.old, C.c, C.n) : cork_alloc_xreallocf(a, C.old, C.c, C.n);
        case O_XNEW:    return C.cur ? cork_xnew(struct thing) : cork_alloc_xnew(a, struct thing);
        case O_XSTRDUP: return (void *) (C.cur ? cork_xstrdup(C.s) : cork_alloc_xstrdup(a, C.s));
        case O_XSTRNDUP: return (void *) (C.cur ? cork_xstrndup(C.s, C.n) : cork_alloc_xstrndup(a, C.s, C.n));
        case O_FREE:    if (C.cur) cork_free(C.old, C.n); else cork_alloc_free(a, C.old, C.n); return NULL;
        case O_CFREE:   if (C.cur) cork_cfree(C.old, C.c, C.n); else cork_alloc_cfree(a, C.old, C.c, C.n); return NULL;
        case O_DELETE:  if (C.cur) cork_delete(struct thing, C.old); else cork_alloc_delete(a, struct thing, C.old); return NULL;
        default:        if (C.cur) cork_strfree(C.old); else cork_alloc_strfree(a, C.old); return NULL;
    }
}
static void call_child(void *ud) { mc_silence(); call(); _exit(41); }
static void reset(void)
{
    sh->nb = sh->nlog = sh->bad = 0; logging = false; failing = -1;
}
static int  pnb = -1;           /* blocks from here on are a child's */
static void release_blocks(int from)
{ int  i; if (pnb >= 0) sh->nb = pnb; pnb = -1; for (i = from; i < sh->nb; i++) (free)(sh->b[i].p); sh->nb = from; }
#define OK()  mc_check(!sh->bad, "method", "%s", sh->msg)
static const struct cork_alloc  *stdalloc;

static struct { struct cork_alloc *a[2]; int nb; }  cache[128];
static int  udata[2];
static void one(int mask)
{
    static const size_t  sizes[] = { 0, 1, 7, 40 };
    static const char *strs[] = { "", "abc", "a string of some length" };
    int  o, direct = -1, i, st, before, m, fail, base, want_fail;
    size_t  want = 0, keep = 0;
    bool  guar, isre;
    unsigned char  *r;
    if (!cache[mask].a[0]) {
        reset();
        for (i = 0; i < 2; i++) { cache[mask].a[i] = cork_alloc_new_alloc(stdalloc); if (i == 0) install(cache[mask].a[i], mask); else install(cache[mask].a[i], 127); cork_alloc_set_user_data(cache[mask].a[i], &udata[i], NULL); }
        cache[mask].nb = sh->nb;
    }
    reset();
    sh->nb = cache[mask].nb;
    base = sh->nb;
    na = 2;
    for (i = 0; i < 2; i++) { al[i] = cache[mask].a[i]; expect_ud[i] = &udata[i]; }
    memset(&C, 0, sizeof C);
    C.o = o = mc_choose(NO);
    C.cur = mc_choose(2);
    C.a = C.cur ? al[1] : al[0];      /* the cork_ functions ignore C.a */
    if (!C.cur) C.a = al[0];
    isre = o == O_REALLOC || o == O_XREALLOC || o == O_XREALLOCF;
    guar = o <= O_STRNDUP;
    switch (o) {
        case O_CALLOC: case O_XCALLOC: case O_CFREE: C.c = mc_choose(4); C.n = sizes[mc_choose(4)]; want = C.c * C.n; break;
        case O_MALLOC: case O_XMALLOC: case O_FREE: C.n = want = sizes[mc_choose(4)]; break;
        case O_NEW: case O_XNEW: case O_DELETE: want = sizeof(struct thing); break;
        case O_STRDUP: case O_XSTRDUP: case O_STRFREE: C.s = strs[mc_choose(3)]; want = strlen(C.s) + 1; break;
        case O_STRNDUP: case O_XSTRNDUP: C.s = strs[mc_choose(3)]; C.n = mc_choose(strlen(C.s) + 1); want = C.n + 1; break;
        default: C.n = want = sizes[mc_choose(4)];
    }
    switch (o) {
        case O_CALLOC: direct = CALLOC; break;
        case O_MALLOC: case O_NEW: case O_STRDUP: case O_STRNDUP: direct = MALLOC; break;
        case O_REALLOC: direct = REALLOC; break;
        case O_XCALLOC: direct = XCALLOC; break;
        case O_XMALLOC: case O_XNEW: case O_XSTRDUP: case O_XSTRNDUP: direct = XMALLOC; break;
        case O_XREALLOC: case O_XREALLOCF: direct = XREALLOC; break;
        default: direct = FREE;
    }
    cork_allocator = al[0];
    fail = o < O_FREE && mc_choose(2);
    mc_log("%s%s on %zu x %zu, %s%s", C.cur ? "cork_" : "cork_alloc_", oname[o], C.c, C.n, C.s ? C.s : "", fail ? ", out of memory" : "");
    /* what the operation works on: blocks of this allocator, made by the methods themselves */
    if (isre && mc_choose(2)) { C.c = sizes[mc_choose(4)]; C.old = got(0, C.c, false); for (i = 0; i < (int) C.c; i++) ((char *) C.old)[i] = 'A' + i; keep = C.c < C.n ? C.c : C.n; }
    if (o == O_FREE || o == O_CFREE || o == O_DELETE) C.old = got(0, want, false);
    if (o == O_STRFREE) {
        if (!(mask & 1 << XMALLOC)) { cork_allocator = stdalloc; return; }
        C.old = (void *) cork_alloc_xstrdup(al[0], C.s);
    }
    OK();
    mc_step();
    before = live(0);
    logging = true;
    failing = fail ? 0 : -1;
    if ((mask & REQUIRED) != REQUIRED) {
        /* Without them only what needs nothing but an installed method is defined; without any at all,
         * the process must stop rather than go on with memory from somewhere else. */
        if (fail || (mask & ~REQUIRED & 127) || (o < O_FREE && (mask & 1 << XMALLOC)) || (o >= O_FREE && (mask & 1 << FREE))) { cork_allocator = stdalloc; release_blocks(base); return; }
        pnb = sh->nb; st = mc_in_child_raw(call_child, NULL);
        mc_check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "undefined", "%s on an allocator without %s doesn't abort (status 0x%x)", oname[o], o < O_FREE ? "xmalloc" : "free", st);
        mc_cover("required method missing");
        cork_allocator = stdalloc;
        release_blocks(base);
        return;
    }
    if (fail && guar) {
        mc_crash_key("guaranteed");
        pnb = sh->nb; st = mc_in_child_raw(call_child, NULL);
        OK();
        if (mask & 1 << direct) {
            mc_check(WIFEXITED(st) && WEXITSTATUS(st) == 57 && sh->nlog == 2 && sh->log[0].what == direct, "not-called", "%s doesn't call the installed %s method (status 0x%x)", oname[o], mname[direct], st);
            mc_cover("installed guaranteed method doesn't return");
        } else {
            mc_check((WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == 57), "no-abort", "%s doesn't abort when the allocator is out of memory (status 0x%x)", oname[o], st);
            mc_cover("guaranteed aborts");
        }
        cork_allocator = stdalloc;
        release_blocks(base);
        return;
    }
    mc_crash_key("call");
    r = call();
    logging = false;
    want_fail = fail;
    failing = -1;
    OK();
    if (mask & 1 << direct) {
        int  n = sh->nlog - (o == O_XREALLOCF && want_fail && C.old ? 1 : 0);
        mc_check(n == 1 && sh->log[0].what == direct && sh->log[0].who == 0, "not-called", "%s makes %d calls, the first to %s, with a %s method installed", oname[o], sh->nlog, sh->nlog ? mname[sh->log[0].what] : "none", mname[direct]);
        if (o != O_STRDUP && o != O_STRNDUP && o != O_XSTRDUP && o != O_XSTRNDUP && o < O_FREE)
            mc_check((void *) r == sh->log[0].r, "result", "%s doesn't return what the %s method returned", oname[o], mname[direct]);
        if (direct == CALLOC || direct == XCALLOC) mc_check(sh->log[0].a * sh->log[0].b == want, "arguments", "%s(%zu, %zu) calls the method with %zu, %zu", oname[o], C.c, C.n, sh->log[0].a, sh->log[0].b);
        if (isre) mc_check(sh->log[0].p == C.old && sh->log[0].a == C.c && sh->log[0].b == C.n, "arguments", "%s calls the method with other arguments", oname[o]);
        mc_cover("installed method called");
    } else mc_cover("default method");
    for (i = 0; i < sh->nlog; i++) mc_check(sh->log[i].who == 0, "other", "%s calls a method of another allocator", oname[o]);
    mc_check(live(STD) == base, "stdlib", "%s uses malloc and free instead of the allocator's own methods", oname[o]);
    if (o >= O_FREE) mc_check(live(0) == before - 1, "not-freed", "%s doesn't free the block", oname[o]);
    else if (want_fail) {
        mc_check(r == NULL, "non-null", "%s returns a pointer although the allocator is out of memory", oname[o]);
        mc_check(live(0) == before - (o == O_XREALLOCF && C.old ? 1 : 0), "live", "a failing %s leaves %d blocks, from %d", oname[o], live(0), before);
        for (i = 0; o != O_XREALLOCF && isre && C.old && i < (int) C.c; i++) mc_check(((char *) C.old)[i] == 'A' + i, "old", "a failing %s changes the old block", oname[o]);
    } else {
        size_t  full = want;
        mc_check(r != NULL, "null", "%s returns NULL", oname[o]);
        mc_check(live(0) == before + (C.old ? 0 : 1), "live", "%s leaves %d blocks, from %d", oname[o], live(0), before);
        if (C.s) { mc_check(memcmp(r, C.s, want - 1) == 0 && r[want - 1] == 0, "string", "%s(\"%s\") gives a different string", oname[o], C.s); }
        else {
            m = find(r);
            mc_check(m >= 0 && sh->b[m].owner == 0 && sh->b[m].n == full, "block", "%s of %zu bytes gives a block of %zu", oname[o], full, m >= 0 ? sh->b[m].n : 0);
            for (i = 0; (o == O_CALLOC || o == O_XCALLOC) && i < (int) want; i++) mc_check(r[i] == 0, "zero", "%s gives memory that isn't zero", oname[o]);
            for (i = 0; i < (int) keep; i++) mc_check(r[i] == 'A' + i, "prefix", "%s loses byte %d", oname[o], i);
        }
    }
    mc_state(mc_h(mc_h(mask * NO + o, C.c * 64 + C.n), fail * 4 + (C.old != NULL) * 2 + C.cur));
    cork_allocator = stdalloc;
    release_blocks(base);
}

/* ---- the debugging allocator ---- */
static const struct cork_alloc  *dbg[NDBG];
static size_t  wrong;
static void wrong_child(void *unused)
{
    mc_silence();
    switch (C.o) {
        case O_FREE:   if (C.cur) cork_free(C.old, wrong); else cork_alloc_free(C.a, C.old, wrong); break;
        case O_CFREE:  if (C.cur) cork_cfree(C.old, wrong, 1); else cork_alloc_cfree(C.a, C.old, 1, wrong); break;
        case O_DELETE: if (C.cur) cork_delete(struct thing, C.old); else cork_alloc_delete(C.a, struct thing, C.old); break;
        case O_REALLOC: if (C.cur) cork_realloc(C.old, wrong, C.n); else cork_alloc_realloc(C.a, C.old, wrong, C.n); break;
        default:       if (C.cur) cork_xrealloc(C.old, wrong, C.n); else cork_alloc_xrealloc(C.a, C.old, wrong, C.n); break;
    }
    _exit(42);
}
static void debugging(int k)
{
    static const int  makers[] = { O_CALLOC, O_MALLOC, O_REALLOC, O_NEW, O_XCALLOC, O_XMALLOC, O_XREALLOC, O_XNEW };
    static const int  enders[] = { O_FREE, O_CFREE, O_DELETE, O_REALLOC, O_XREALLOC };
    static const size_t  sizes[] = { 0, 1, 8, 40, 41 };
    static int  base0;
    size_t  n, real;
    int  base, st;
    if (!dbg[0]) {
        reset(); na = 1;
        al[0] = cork_alloc_new_alloc(stdalloc); install(al[0], 127); expect_ud[0] = NULL;
        dbg[0] = cork_debug_alloc_new(stdalloc);
        dbg[1] = cork_debug_alloc_new(al[0]);
        dbg[2] = cork_debug_alloc_new(dbg[0]);
        dbg[3] = cork_debug_alloc_new(dbg[1]);
        base0 = sh->nb;
    }
    reset(); sh->nb = base = base0;
    memset(&C, 0, sizeof C);
    C.a = dbg[k]; C.cur = mc_choose(2);
    cork_allocator = C.cur ? dbg[k] : stdalloc;
    C.o = makers[mc_choose(8)];
    n = C.o == O_NEW || C.o == O_XNEW ? sizeof(struct thing) : sizes[mc_choose(5)];
    C.n = n; C.c = C.o == O_CALLOC || C.o == O_XCALLOC ? 1 : 0;
    C.old = call();
    OK();
    mc_check(C.old != NULL, "null", "the debugging allocator refuses %zu bytes", n);
    memset(C.old, 0x33, n);
    real = n;
    C.o = enders[mc_choose(5)];
    wrong = sizes[mc_choose(5)];
    C.n = 0;
    if (C.o == O_DELETE) wrong = sizeof(struct thing);
    if (C.o == O_REALLOC || C.o == O_XREALLOC) C.n = sizes[mc_choose(5)];
    mc_log("a block of %zu bytes, %s with size %zu (new size %zu)", real, oname[C.o], wrong, C.n);
    mc_step();
    mc_crash_key("debug");
    pnb = sh->nb; st = mc_in_child_raw(wrong_child, NULL);
    OK();
    if (wrong == real) {
        mc_check(WIFEXITED(st) && WEXITSTATUS(st) == 42, "refused", "the right size is refused (status 0x%x)", st);
        mc_check(live(-1) == base + (C.o == O_REALLOC || C.o == O_XREALLOC), "live", "%d blocks left", live(-1) - base);
        mc_cover("right size");
    } else {
        mc_check(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "unnoticed", "%s of a block of %zu bytes with size %zu is not noticed (status 0x%x)", oname[C.o], real, wrong, st);
        mc_cover("wrong size noticed");
    }
    mc_state(mc_h(mc_h(k, real * 64 + wrong), C.o * 128 + C.n));
    cork_allocator = stdalloc;
    /* the child's frees were not seen by this process's memory */
    release_blocks(base);
}

/* ---- the life of allocators, in a process of its own that then exits ---- */
struct op { int op, k, v; };
static struct op  ops[8];
static int  nops;
static int  nud;
static struct { int alloc; int with; }  ud[16];
static void ud_free(void *p)
{
    note(L_UDFREE, (int) ((char *) p - (char *) ud) / (int) sizeof ud[0], p, 0, 0, NULL);
}
static void usable(void)
{
    int  i;
    bool  l = logging;
    logging = false;
    for (i = 0; i < na; i++) {
        char  *p = cork_alloc_malloc(al[i], 24);
        memset(p, 1, 24);
        cork_alloc_free(al[i], p, 24);
    }
    logging = l;
}
static void cleanup(void) { usable(); note(L_CLEANUP, 0, NULL, 0, 0, NULL); }
static void life_child(void *unused)
{
    int  i;
    na = 0; nud = 0;
    logging = true;
    for (i = 0; i < nops; i++) {
        struct op  *o = &ops[i];
        switch (o->op) {
            case 0: {
                const struct cork_alloc  *parent = o->k < 0 ? stdalloc : al[o->k];
                struct cork_alloc  *a = o->v == 2 ? cork_debug_alloc_new(parent) : cork_alloc_new_alloc(parent);
                expect_ud[na] = NULL;
                sh->inst[na] = a;
                al[na++] = a;
                if (a->parent != parent) BAD("an allocator has the wrong parent");
                if (o->v < 2) install(a, o->v ? 127 : REQUIRED);
                break; }
            case 1: {
                void  *p = o->v == 0 ? NULL : &ud[nud];
                ud[nud].alloc = o->k; ud[nud].with = o->v == 2; nud++;
                cork_alloc_set_user_data(al[o->k], p, o->v == 2 ? ud_free : NULL);
                expect_ud[o->k] = p;
                break; }
            case 2: usable(); break;
            case 3: cork_cleanup_at_exit(o->v, cleanup); break;
            case 4: cork_set_allocator(al[o->k]); if (cork_allocator != al[o->k]) BAD("cork_set_allocator has no effect"); break;
            case 5: { void  *p = cork_malloc(10); memset(p, 2, 10); cork_free(p, 10); } break;
        }
        mc_step();
        note(50 + i, 0, NULL, 0, 0, NULL);
    }
    note(49, 0, NULL, 0, 0, NULL);
    exit(0);
}
static void life(int root)
{
    int  i, n = 0, set = 0, phase = 0, cleanups = 0, u = 0, ud_now[NA], base, j;
    struct { int what, who; }  want[64], have[64];
    int  nw = 0, nh = 0;
    uint64_t  h = root;
    nops = 0;
    for (i = 0; i < D; i++) {
        struct op  *o = &ops[nops];
        int  c = i == 0 ? 0 : mc_choose(7);
        memset(o, 0, sizeof *o);
        if (c == 6) break;
        if (c == 0 || c == 1) {
            o->op = c;
            if (c == 0) {
                if (n == NA - 1 || phase) return;
                o->k = i == 0 ? -1 : mc_choose(n + 1) - 1;
                o->v = i == 0 ? root % 3 : mc_choose(3);
                ud_now[n] = -1; n++;
            } else {
                o->k = mc_choose(n); o->v = mc_choose(3);
                u++;
            }
        } else if (c == 2) { o->op = 2; }
        else if (c == 3) { if (!n) return; o->op = 3; o->v = cleanups; phase = 1; cleanups++; }
        else if (c == 4) { if (set || phase) return; o->op = 4; o->k = mc_choose(n); set = 1; }
        else { if (root < 3) return; o->op = 5; phase = 1; }
        h = mc_h(h, o->op * 64 + (o->k + 1) * 8 + o->v);
        nops++;
    }
    if (root >= 3 && !set) return;      /* these roots are about the one that is set */
    reset();
    base = 0;
    mc_crash_key("life");
    mc_in_child(life_child, NULL);
    OK();
    /* expected: user data freed when replaced, and at exit; cleanup functions; then the allocators, last first */
    u = 0;
    for (i = 0; i < nops; i++) {
        if (ops[i].op == 1) {
            if (ud_now[ops[i].k] >= 0) { want[nw].what = L_UDFREE; want[nw++].who = ud_now[ops[i].k]; }
            ud_now[ops[i].k] = ops[i].v == 2 ? u : -1;
            u++;
        }
        want[nw].what = 50 + i; want[nw++].who = 0;
    }
    want[nw].what = 49; want[nw++].who = 0;
    for (i = 0; i < cleanups; i++) { want[nw].what = L_CLEANUP; want[nw++].who = 0; }
    for (i = n - 1; i >= 0; i--) {
        if (ud_now[i] >= 0) { want[nw].what = L_UDFREE; want[nw++].who = ud_now[i]; }
        want[nw].what = L_INST; want[nw++].who = i;
    }
    for (i = 0; i < sh->nlog; i++) {
        int  w = sh->log[i].what;
        if (w == FREE) {
            int  b;
            for (b = 0; b < sh->nb; b++) if (sh->b[b].p == sh->log[i].p) break;
            for (j = 0; b < sh->nb && j < n; j++)
                if ((char *) sh->inst[j] >= (char *) sh->b[b].p && (char *) sh->inst[j] < (char *) sh->b[b].p + sh->b[b].n) {
                    have[nh].what = L_INST; have[nh++].who = j;
                }
            continue;
        }
        if (w < L_UDFREE) continue;
        have[nh].what = w; have[nh++].who = sh->log[i].who;
        if (nh == 64) break;
    }
    for (i = 0; i < nw || i < nh; i++) {
        mc_check(i < nh, "missing", "of %d things that happen, %d happen: event %d (of allocator or user data %d) doesn't", nw, nh, want[i].what, want[i].who);
        mc_check(i < nw, "extra", "event %d of %d happens once too often", have[i].what, have[i].who);
        mc_check(have[i].what == want[i].what && have[i].who == want[i].who, "order", "event %d is %d of %d, expected %d of %d", i, have[i].what, have[i].who, want[i].what, want[i].who);
    }
    mc_check(live(-1) == base, "leak", "%d blocks are left after the process exited", live(-1) - base);
    mc_cover(set ? "allocator set" : cleanups ? "with cleanup functions" : n > 1 ? "several allocators" : "one allocator");
    mc_state(h);
}

void mc_run(int root)
{
    if (!stdalloc) stdalloc = cork_allocator;
    if (root < 128) one(root);
    else if (root < 128 + NDBG) debugging(root - 128);
    else life(root - 128 - NDBG);
}
