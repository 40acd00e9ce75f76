/* C32: path manipulation against string rules.  getcwd() of the library gives our directory. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/os.h>
#include <errno.h>
#include <limits.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;

static char  longdir[PATH_MAX], toolong[PATH_MAX + 10];
static const char  *cwds[] = { "/w", "/", "/w/x.y", longdir, toolong, NULL };
#define NCWD 6
static const char  *cwd;
char *mcw_getcwd(char *buf, size_t size)
{
    size_t  n;
    if (cwd == NULL) { errno = ENOENT; return NULL; }
    n = strlen(cwd) + 1;
    if (cwd == toolong) { errno = buf == NULL ? ENAMETOOLONG : ERANGE; if (buf && size < n) { return NULL; } if (buf == NULL) return NULL; }
    if (buf == NULL) { buf = malloc(size > n ? size : n); memcpy(buf, cwd, n); return buf; }
    if (size < n) { errno = ERANGE; return NULL; }
    memset(buf, 'Z', size);
    memcpy(buf, cwd, n);
    return buf;
}
char *mcw___getcwd_chk(char *buf, size_t size, size_t blen)
{ mc_check(size <= blen, "overflow", "getcwd is given more room than there is"); return mcw_getcwd(buf, size); }
char *mcw_get_current_dir_name(void) { return mcw_getcwd(NULL, 0); }

/* ------------------------------------------------------------ rules */
#define MAX  (PATH_MAX * 3)
static void m_append(char *p, const char *more)
{
    size_t  n = strlen(p);
    if (more == NULL || *more == 0) return;
    if (*more == '/') { strcpy(p, more); return; }
    if (n && p[n - 1] != '/') p[n++] = '/';
    strcpy(p + n, more);
}
static void m_basename(char *p)
{ char  *s = strrchr(p, '/'); if (s) memmove(p, s + 1, strlen(s)); }
static void m_dirname(char *p)
{ char  *s = strrchr(p, '/'); if (s == NULL) *p = 0; else if (s == p) p[1] = 0; else *s = 0; }
static bool cwd_ok(void) { return cwd != NULL && cwd != toolong; }
static bool m_absolute(char *p)
{
    static char  t[MAX];
    size_t  n;
    if (*p == '/') return true;
    if (!cwd_ok()) return false;
    strcpy(t, cwd);
    n = strlen(t);
    if (t[n - 1] != '/') t[n++] = '/';       /* also before an empty path */
    strcpy(t + n, p);
    strcpy(p, t);
    return true;
}

static void is(struct cork_path *p, const char *want, const char *key, const char *what)
{
    const char  *got = cork_path_get(p);
    mc_check(got != NULL, key, "%s gives a path without a string", what);
    mc_check(strcmp(got, want) == 0, key, "%s gives %s, not %s", what, mc_quote(got, strnlen(got, 60)), mc_quote(want, strnlen(want, 60)));
}

/* ------------------------------------------------------------ all pairs */
static const char  alpha[] = "/a.b";
static long npow(int l) { long  n = 0, p = 1; int  i; for (i = 0; i <= l; i++) { n += p; p *= 4; } return n; }
static void nth(long n, char *s)
{
    int  l = 0, i;
    long  p = 1;
    while (n >= p) { n -= p; p *= 4; l++; }
    for (i = 0; i < l; i++) { s[i] = alpha[n % 4]; n /= 4; }
    s[l] = 0;
}
#define L1  MC_T(5, 7)
#define L2  MC_T(4, 5)
#define BLOCK 8
static int pair_roots(void) { return (npow(L1) + BLOCK - 1) / BLOCK; }

static void unary(const char *a, const char *ctx)
{
    struct cork_path  *p = cork_path_new(a), *q, *r;
    char  m[MAX], what[80];
    const char  *in = a ? a : "";
    bool  ok;
    snprintf(what, sizeof what, "of %s", ctx);
    mc_eval(1);
    is(p, in, "new", "making a path");
    q = cork_path_clone(p); is(q, in, "clone", "cloning"); cork_path_free(q);
    strcpy(m, in); m_basename(m);
    q = cork_path_basename(p); is(q, m, "basename", "the base name of a path"); is(p, in, "input-changed", "basename's input"); cork_path_free(q);
    q = cork_path_clone(p); cork_path_set_basename(q); is(q, m, "basename", "setting a path to its base name");
    cork_path_append(q, "t"); m_append(m, "t"); is(q, m, "append", "appending to a base name"); cork_path_free(q);
    strcpy(m, in); m_dirname(m);
    q = cork_path_dirname(p); is(q, m, "dirname", "the directory name of a path"); is(p, in, "input-changed", "dirname's input"); cork_path_free(q);
    q = cork_path_clone(p); cork_path_set_dirname(q); is(q, m, "dirname", "setting a path to its directory name");
    cork_path_append(q, "t"); m_append(m, "t"); is(q, m, "append", "appending to a directory name"); cork_path_free(q);
    strcpy(m, in); ok = m_absolute(m);
    cork_error_clear();
    q = cork_path_absolute(p);
    is(p, in, "input-changed", "absolute's input");
    mc_check((q != NULL) == ok, "absolute", "cork_path_absolute %s", q ? "succeeds" : "fails");
    mc_check(cork_error_occurred() == !ok, "absolute-error", "cork_path_absolute %s an error", ok ? "sets" : "does not set");
    if (q) { is(q, m, "absolute", "the absolute form of a path"); cork_path_free(q); }
    cork_error_clear();
    r = cork_path_clone(p);
    mc_check(cork_path_set_absolute(r) == (ok ? 0 : -1), "absolute", "cork_path_set_absolute returns the wrong result");
    mc_check(cork_error_occurred() == !ok, "absolute-error", "cork_path_set_absolute %s an error", ok ? "sets" : "does not set");
    is(r, m, "absolute", ok ? "making a path absolute" : "failing to make a path absolute");
    cork_path_append(r, "t"); m_append(m, "t"); is(r, m, "append", "appending to an absolute path");
    cork_path_free(r);
    cork_path_free(p);
}
static void pair(const char *a, const char *b)
{
    struct cork_path  *p = cork_path_new(a), *o = cork_path_new(b), *q;
    char  m[40];
    mc_eval(1);
    strcpy(m, a); m_append(m, b);
    q = cork_path_join(p, b); is(q, m, "join", "joining"); cork_path_free(q);
    q = cork_path_join_path(p, o); is(q, m, "join", "joining with a path"); cork_path_free(q);
    is(p, a, "input-changed", "join's first input"); is(o, b, "input-changed", "join's second input");
    q = cork_path_clone(p); cork_path_append(q, b); is(q, m, "append", "appending"); cork_path_free(q);
    cork_path_append_path(p, o); is(p, m, "append", "appending a path"); is(o, b, "input-changed", "append's second input");
    cork_path_set(p, b); is(p, b, "set", "setting");
    cork_path_set(p, NULL); is(p, "", "set", "setting to NULL");
    cork_path_free(p); cork_path_free(o);
}

/* ------------------------------------------------------------ histories */
static const char  *words[] = { "a", "/b", "", "c/", "/", ".", "../d", "e//f/", "fifteen-chars-x", "/sixteen-chars-xx", longdir, NULL };
#define NW 12
enum { O_SET, O_APPEND, O_JOIN, O_JOINP, NWOP };
enum { U_BASE, U_BASEC, U_DIR, U_DIRC, U_ABS, U_ABSC, U_CWD, U_CWDC, U_CLONE, NUOP };

static void history(int c, int first)
{
    struct cork_path  *p, *q = NULL, *w;
    char  m[MAX], want[MAX];
    int  d, depth = MC_T(4, 5);
    cwd = cwds[c];
    strcpy(m, words[first] ? words[first] : "");
    p = cork_path_new(words[first]);
    for (d = depth; d > 0; d--) {
        int  op = mc_choose(NWOP * NW + NUOP);
        uint64_t  h;
        cork_error_clear();
        mc_step();
        if (op < NWOP * NW) {
            const char  *s = words[op / NWOP];
            mc_log("%s %s", op % NWOP == O_SET ? "set" : op % NWOP == O_APPEND ? "append" : op % NWOP == O_JOIN ? "join" : "join_path", s ? mc_quote(s, strnlen(s, 40)) : "NULL");
            if (strlen(m) > PATH_MAX + 100) { break; }
            strcpy(want, m);
            if (op % NWOP == O_SET) strcpy(want, s ? s : ""); else m_append(want, s);
            switch (op % NWOP) {
                case O_SET: cork_path_set(p, s); break;
                case O_APPEND: cork_path_append(p, s); break;
                case O_JOIN: q = cork_path_join(p, s); is(p, m, "input-changed", "join's input"); cork_path_free(p); p = q; break;
                default: w = cork_path_new(s); q = cork_path_join_path(p, w);
                    is(p, m, "input-changed", "join's input"); is(w, s ? s : "", "input-changed", "join's second input");
                    cork_path_free(w); cork_path_free(p); p = q; break;
            }
            strcpy(m, want);
            is(p, m, "history", "appending or joining");
        } else {
            bool  ok = true;
            op -= NWOP * NW;
            mc_log("%s", (const char *[]) { "set_basename", "basename", "set_dirname", "dirname", "set_absolute", "absolute", "set_cwd", "cwd", "clone" }[op]);
            strcpy(want, m);
            if (op == U_BASE || op == U_BASEC) m_basename(want);
            else if (op == U_DIR || op == U_DIRC) m_dirname(want);
            else if (op == U_ABS || op == U_ABSC) ok = m_absolute(want);
            else if (op == U_CWD || op == U_CWDC) { ok = cwd_ok(); if (ok) strcpy(want, cwd); }
            q = NULL;
            switch (op) {
                case U_BASE: cork_path_set_basename(p); break;
                case U_DIR: cork_path_set_dirname(p); break;
                case U_ABS: mc_check(cork_path_set_absolute(p) == (ok ? 0 : -1), "absolute", "set_absolute returns the wrong result"); break;
                case U_CWD: mc_check(cork_path_set_cwd(p) == (ok ? 0 : -1), "cwd", "set_cwd returns the wrong result"); break;
                case U_BASEC: q = cork_path_basename(p); break;
                case U_DIRC: q = cork_path_dirname(p); break;
                case U_ABSC: q = cork_path_absolute(p); break;
                case U_CWDC: q = cork_path_cwd(); break;
                case U_CLONE: q = cork_path_clone(p); break;
            }
            mc_check(cork_error_occurred() == !ok, "cwd-error", "a call that %s %s an error", ok ? "succeeds" : "fails", ok ? "sets" : "does not set");
            if (op == U_BASEC || op == U_DIRC || op == U_ABSC || op == U_CWDC || op == U_CLONE) {
                mc_check((q != NULL) == ok, "cwd", "a copying call %s", q ? "succeeds without a current directory" : "fails");
                is(p, m, "input-changed", "a copying call's input");
                if (ok) { cork_path_free(p); p = q; }
            }
            if (!ok && op == U_CWD) {            /* what the path holds then is open */
                mc_check(cork_path_get(p) != NULL && strlen(cork_path_get(p)) < MAX, "cwd", "no string after a failed set_cwd");
                cork_path_set(p, m);
            }
            if (ok) strcpy(m, want);
            is(p, m, "history", "an operation");
        }
        h = mc_hbuf(c, m, strlen(m));
        mc_state(h);
        if (mc_seen(h, d)) break;
    }
    cork_path_free(p);
}

/* ------------------------------------------------------------ roots */
int mc_roots(void) { return NCWD * NW + pair_roots(); }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < NCWD * NW) snprintf(b, n, "histories in directory %.30s from %.30s", cwds[r % NCWD] ? cwds[r % NCWD] : "(gone)", words[r / NCWD] ? words[r / NCWD] : "NULL");
    else snprintf(b, n, "strings %d.. with all others", (r - NCWD * NW) * BLOCK);
}
void mc_init(void)
{
    int  i;
    longdir[0] = toolong[0] = '/';
    for (i = 1; i < PATH_MAX - 1; i++) longdir[i] = i % 200 ? 'l' : '/';
    for (i = 1; i < PATH_MAX + 5; i++) toolong[i] = 't';
    mc_unpruned = 2;
    track_install();
    track_prime();
}
void mc_run(int r)
{
    size_t  base;
    cork_error_set_printf(CORK_PARSE_ERROR, "x");
    cork_error_clear();
    base = track_live();
    if (r < NCWD * NW) history(r % NCWD, r / NCWD);
    else {
        long  i, j, i0 = (long) (r - NCWD * NW) * BLOCK;
        char  a[20], b[20];
        int  k;
        for (i = i0; i < i0 + BLOCK && i < npow(L1); i++) {
            nth(i, a);
            mc_step();
            mc_state(mc_hbuf(7, a, strlen(a)));
            mc_crash_key("crash");
            for (k = 0; k < NCWD; k++) { cwd = cwds[k]; unary(a, a); }
            for (j = 0; j < npow(L2); j++) { nth(j, b); pair(a, b); }
        }
        if (i0 == 0) for (k = 0; k < NCWD; k++) { cwd = cwds[k]; unary(NULL, "NULL"); unary(longdir, "a long path"); unary(toolong, "a very long path"); unary(longdir + 1, "a long relative path"); }
    }
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
}
