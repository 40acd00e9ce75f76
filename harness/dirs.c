/* C34: iterating a directory and walking a tree, against the tree itself as the callbacks come:
 * every placement of callback results and failing system calls up to a budget. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/os.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mc.h"
#include "track.h"
#include "fsx.h"
const char *mc_harness_name = HARNESS_NAME;

#define L50 "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
#define L20 "mmmmmmmmmmmmmmmmmmmm"
static const char  *trees[] = {
    "", "x", "a", "a/", "a/ a/x", "a/ a/d/", "a/ a/d/ a/d/y a/x", "a/ a/d/ a/d/e/ a/e/ a/e/d/ x", "a/ a/d/ a/d/x a/x x",
    "a/ a/d/ a/d/e/ a/d/e/z a/f/ a/f/w b", "o/ o/k a>o", "o/ o/k a/ a/l>../o", "o/ o/k a/ a/l>../o/k a/x", "a/ a/l>nowhere a/x", "a/ a/l>l a/x",
    "a/ a/x|", "a/ a/d! a/x", "a!", "a/ a/..b a/.c a/.../ a/.../..x", "a/ a/1 a/2 a/3 a/4/ a/5/", "a/ a/d# a/d/x a/d/y",
    "a/ a/a/ a/a/a/ a/a/a/a/ a/a/a/a/a", "a/ a/" L50 "/ a/" L50 "/" L50 "/ a/" L50 "/" L50 "/" L20 " a/x",
    "a/ a/" L20 "/ a/" L20 "/x a/" L50, "a/ a/b/ a/c/ a/b/x/ a/c/x/ a/b/x/1 a/c/x/1", "a#", "a/ a/d/ a/d/e! a/x", "a/ a/b a/bb a/b.b a/bbb/ a/bbb/b",
};
enum { NT = sizeof trees / sizeof *trees };
static const char  *paths[] = { "a", "a/", "a//", "./a", "/a", ".", "/", "//", "", "a/../a", "a/d", "a/d///", "zz", "a/x", "a/x/y", "a/l", "./" };
enum { NPA = sizeof paths / sizeof *paths };

static void squeeze(char *s)
{
    char  *o = s, *c;
    for (c = s; *c; c++) if (!(*c == '/' && o > s && o[-1] == '/')) *o++ = *c;
    *o = 0;
}
/* ------------------------------------------------------------ what has been visited */
#define MAXV 140
enum { T_FILE, T_DIR, T_OTHER, T_NONE };
static struct { char rel[1000]; bool open; } seen[MAXV];
static int  nseen, depth, calls;
static char  stack[50][1000];
static const char  *given;
static int  stopped;             /* the non-zero result a callback returned */
static unsigned  stopcode;
static bool  in_callback;
static char  topreal[400];       /* the directory given, opened once and for all */

static int type_of(const char *rel)
{
    char  t[1600];
    struct stat  st;
    snprintf(t, sizeof t, "%s/%s", topreal, rel);
    if (stat(t, &st) != 0) return T_NONE;
    return S_ISDIR(st.st_mode) ? T_DIR : S_ISREG(st.st_mode) ? T_FILE : T_OTHER;
}
static bool was_seen(const char *rel) { int  i; for (i = 0; i < nseen; i++) if (!strcmp(seen[i].rel, rel)) return true; return false; }
/* everything in directory rel ("" for the top) has been visited; bad: something there can't be told */
static void all_seen(const char *rel, bool everything)
{
    char  t[1600], r[1300];
    DIR  *d;
    struct dirent  *e;
    snprintf(t, sizeof t, "%s/%s", topreal, rel);
    d = opendir(t);
    mc_check(d != NULL, "unreadable", "the traversal goes well though %s can't be read", *rel ? rel : "the directory");
    while ((e = readdir(d))) {
        int  ty;
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
        ty = type_of(r);
        mc_check(was_seen(r) || (!everything && (ty == T_OTHER || ty == T_NONE)), "missed", "%s is not visited", r);
    }
    closedir(d);
}
static void names(const char *what, const char *full, const char *rel, const char *base)
{
    char  w[1600], f[1600];
    const char  *s;
    mc_check(full && (rel || !*what) && base, "null-name", "%s gets a NULL name", what);
    snprintf(f, sizeof f, "%s", full); squeeze(f);
    if (rel) {
        snprintf(w, sizeof w, "%s/%s", given, rel); squeeze(w);
        mc_check(!strcmp(w, f), "full", "%s %s of %s gets the full path %s", what, rel, given, full);
        s = strrchr(rel, '/');
        mc_check(!strcmp(s ? s + 1 : rel, base), "base", "%s %s gets the base name %s", what, rel, base);
        mc_check(*rel && *rel != '/' && *base, "rel", "%s gets the relative path %s", what, rel);
    }
}
/* the parent of rel is the directory we're in */
static void inside(const char *what, const char *rel)
{
    const char  *s = strrchr(rel, '/');
    size_t  n = s ? (size_t) (s - rel) : 0;
    const char  *top = depth ? stack[depth - 1] : "";
    mc_check(strlen(top) == n && !memcmp(top, rel, n), "order", "%s %s comes inside %s", what, rel, *top ? top : "the top");
}
static int result(const char *what, const char *rel, bool enter)
{
    int  k;
    bool  f = fsx_faults;
    mc_step();
    calls++;
    errno = calls & 1 ? ENOTTY : 0;         /* whatever the callback did */
    if (!f) return 0;
    k = mc_choose_dev(5);
    mc_log("    %s %s%s", what, rel, (const char *[]) { "", " returns 1", " returns 5", " returns -1", " returns -7" }[k]);
    if (k == 0) return 0;
    if (enter && k == 1) { mc_cover("skipped"); return CORK_SKIP_DIRECTORY; }
    stopped = k == 1 ? 1 : k == 2 ? 5 : k == 3 ? -1 : -7;
    if (stopped < 0) { cork_error_set_printf(CORK_PARSE_ERROR, "mine"); stopcode = CORK_PARSE_ERROR; }
    return stopped;
}
static void begin(const char *what, const char *rel)
{
    mc_check(!in_callback, "nested", "a callback inside a callback");
    mc_check(stopped == 0, "goes-on", "%s %s after a callback returned %d", what, rel, stopped);
}
static void note(const char *what, const char *rel)
{
    mc_check(!was_seen(rel), "twice", "%s %s for the second time", what, rel);
    if (nseen == MAXV) mc_fail("many", "more than %d visits", MAXV);
    snprintf(seen[nseen++].rel, 1000, "%s", rel);
}

/* ------------------------------------------------------------ walking */
struct my_walker { struct cork_dir_walker w; int magic; };
static struct my_walker  mw;
static int w_file(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{
    begin("file", rel);
    mc_check(w == &mw.w && mw.magic == 77, "walker", "the callback gets another walker");
    names("file", full, rel, base);
    inside("file", rel);
    note("file", rel);
    mc_check(type_of(rel) == T_FILE, "kind", "%s is visited as a file", rel);
    return result("file", rel, false);
}
static int w_enter(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{
    int  rc;
    begin("enter", rel);
    mc_check(w == &mw.w, "walker", "the callback gets another walker");
    names("enter", full, rel, base);
    inside("enter", rel);
    note("enter", rel);
    mc_check(type_of(rel) == T_DIR, "kind", "%s is visited as a directory", rel);
    rc = result("enter", rel, true);
    if (rc == 0) { if (depth == 50) mc_fail("deep", "too deep"); strcpy(stack[depth++], rel); }
    return rc;
}
static int w_leave(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{
    begin("leave", rel);
    mc_check(w == &mw.w, "walker", "the callback gets another walker");
    names("leave", full, rel, base);
    mc_check(depth > 0 && !strcmp(stack[depth - 1], rel), "leave", "%s is left, not %s", rel, depth ? stack[depth - 1] : "anything");
    if (!(fsx_injected || fsx_interrupted)) all_seen(rel, false);
    depth--;
    return result("leave", rel, false);
}

/* ------------------------------------------------------------ iterating */
static struct cork_file  *itfile;
static int  itdata;
static int i_visit(struct cork_file *child, const char *name, void *ud)
{
    bool  f = fsx_faults;
    const char  *full = cork_path_get(cork_file_path(child));
    enum cork_file_type  ty;
    int  want, rc;
    mc_check(name != NULL, "null-name", "the iterator gets a NULL name");
    begin("visit", name);
    mc_check(ud == &itdata, "data", "the iterator gets other user data");
    mc_check(!strchr(name, '/') && strcmp(name, ".") && strcmp(name, ".."), "rel", "the iterator gets the name %s", name);
    mc_check(child != itfile, "child", "the iterator gets the directory as the child");
    if (*given) names("visit", full, name, name);
    note("visit", name);
    fsx_faults = false;
    want = type_of(name);
    rc = cork_file_type(child, &ty);
    if (want == T_NONE) cork_error_clear();
    else mc_check(rc == 0 && (int) ty == (want == T_FILE ? CORK_FILE_REGULAR : want == T_DIR ? CORK_FILE_DIRECTORY : CORK_FILE_UNKNOWN), "child-type", "child %s has type %d (%d)", name, ty, rc);
    fsx_faults = f;
    return result("visit", name, false);
}

/* ------------------------------------------------------------ one traversal */
static bool usable;              /* the directory given can be opened */
static void verdict(const char *what, int rc, bool everything)
{
    int  i;
    bool  trouble = false;
    fsx_faults = false;
    mc_check(fsx_open_dirs() == 0, "dir-leak", "%s leaves %d directories open", what, fsx_open_dirs());
    /* what can't be told or read is a reason to fail */
    for (i = 0; i <= nseen; i++) {
        char  t[1600];
        const char  *rel = i < nseen ? seen[i].rel : "";
        DIR  *d;
        struct dirent  *e;
        if (everything && i < nseen) continue;
        if (!usable || type_of(rel) != T_DIR) continue;
        snprintf(t, sizeof t, "%s/%s", topreal, rel);
        if (!(d = opendir(t))) { trouble = true; continue; }
        while ((e = readdir(d))) {
            char  r[1300];
            snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
            if (type_of(r) == T_NONE) trouble = true;
        }
        closedir(d);
    }
    if (everything && usable) trouble = false;
    if (stopped) {
        bool  atclose = fsx_injected || fsx_interrupted;
        mc_check(rc == stopped || (atclose && rc == -1), "result", "a callback returned %d, %s returns %d", stopped, what, rc);
        if (rc == stopped && stopped < 0 && !atclose) mc_check(cork_error_occurred() && cork_error_code() == stopcode, "error-lost", "the callback's error is lost");
        if (stopped > 0 && !atclose) mc_check(!cork_error_occurred(), "error-made", "a callback returned %d and an error is set: %s", stopped, cork_error_message());
        mc_cover("stopped by a callback");
    } else if (rc == 0) {
        mc_check(!cork_error_occurred(), "error-made", "%s succeeds and sets an error", what);
        mc_check(fsx_injected == 0 || !strcmp(fsx_where, "closedir"), "swallowed", "%s succeeds though %s failed", what, fsx_where);
        mc_check(usable, "succeeds", "%s of %s succeeds", what, given);
        mc_check(depth == 0, "not-left", "%s ends without leaving %s", what, depth ? stack[depth - 1] : "");
        all_seen("", everything);
        mc_cover("complete");
    } else {
        mc_check(rc == -1, "result", "%s returns %d", what, rc);
        mc_check(cork_error_occurred(), "no-error", "%s returns -1 without an error (%s failed)", what, fsx_where);
        mc_check(fsx_injected || fsx_interrupted || !usable || trouble, "fails", "%s of %s fails: %s", what, given, cork_error_message());
        if (fsx_injected == 1 && !fsx_interrupted && usable && !trouble) mc_check(cork_error_code() == EIO, "code", "%s failed, the error is %u", fsx_where, cork_error_code());
        mc_cover(fsx_injected ? "failed by a system call" : "failed");
    }
    {
        uint64_t  h = mc_h(mc_h(nseen, rc + 9), stopped * 3 + fsx_injected);
        for (i = 0; i < nseen; i++) h = mc_hbuf(h, seen[i].rel, strlen(seen[i].rel));
        mc_state(h);
    }
}
static void clear(void) { nseen = depth = stopped = calls = 0; cork_error_clear(); }

/* ------------------------------------------------------------ large trees */
static const char  *bigpaths[] = { "a", "a//", "." };
enum { NBP = 3, SMALL = NT * NPA * 2 };
int mc_roots(void) { return SMALL + FSX_NBIG * NBP * 2; }
void mc_root_name(int r, char *b, size_t n)
{ if (r >= SMALL) snprintf(b, n, "%s \"%s\" in a tree of %s", r % 2 ? "iterating" : "walking", bigpaths[(r - SMALL) / 2 % NBP], fsx_bign[(r - SMALL) / 2 / NBP]);
  else snprintf(b, n, "%s \"%s\" in tree \"%.80s\"", r % 2 ? "iterating" : "walking", paths[r / 2 % NPA], trees[r / 2 / NPA]); }
void mc_init(void) { track_install(); track_prime(); fsx_init(); fsx_grow(); }
void mc_run(int r)
{
    size_t  base;
    int  rc, fd;
    cork_error_set_printf(CORK_PARSE_ERROR, "x");
    mc_crash_key("crash");
    fsx_reset();
    fsx_enter("a");
    if (r >= SMALL) { fsx_build(fsx_bigtree[(r - SMALL) / 2 / NBP]); given = bigpaths[(r - SMALL) / 2 % NBP]; }
    else { fsx_build(trees[r / 2 / NPA]); given = paths[r / 2 % NPA]; }
    snprintf(topreal, sizeof topreal, "%s", *given == '/' ? fsx_real(given) : *given ? given : ".");
    fd = *given ? open(topreal, O_RDONLY | O_DIRECTORY) : -1;
    usable = fd >= 0;
    if (fd >= 0) close(fd);
    clear();
    mc_set_budget(r >= SMALL ? MC_T(1, 2) : MC_T(3, 4));
    fsx_faults = true;
    base = track_live();
    if (r % 2 == 0) {
        mw.w.file = w_file; mw.w.enter_directory = w_enter; mw.w.leave_directory = w_leave; mw.magic = 77;
        rc = cork_walk_directory(given, &mw.w);
        verdict("the walk", rc, false);
    } else {
        int  pass;
        itfile = cork_file_new(given);
        for (pass = 0; pass < 2; pass++) {
            rc = cork_file_iterate_directory(itfile, i_visit, &itdata);
            verdict("the iteration", rc, true);
            mc_check(!strcmp(cork_path_get(cork_file_path(itfile)), given), "path", "the directory's path becomes %s", cork_path_get(cork_file_path(itfile)));
            clear(); fsx_reset();           /* again, without failures */
        }
        cork_file_free(itfile);
    }
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
}
