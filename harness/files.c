/* C33: queries, mkdir and remove on real directory trees, against the plain system calls on a
 * twin of the tree; single failures of the library's system calls. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/os.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mc.h"
#include "track.h"
#include "fsx.h"
const char *mc_harness_name = HARNESS_NAME;

static const char  *trees[] = {
    "", "a", "a/", "a/ a/x", "a/ a/d/", "a/ a/d/ a/d/y a/x", "a/ a/d/ a/d/e/ a/d/e/z a/f/ a/f/w b",
    "o/ o/k a>o", "o/ o/k a>o/k", "a>nowhere", "a>a", "o/ o/k a/ a/l>../o", "o/ o/k a/ a/l>../o/k a/x",
    "a/ a/l>nowhere a/x", "a/ a/l>l a/x", "a/ a/x|", "a/ a/d! a/x", "a!", "a/ a/d/ a/d/l>../../o o/ o/s/ o/s/k",
    "a/ a/..b a/.c a/.../", "a/ a/l>..", "a/ a/b/ a/b/c/ a/b/c/d/", "a/ a/1 a/2 a/3 a/4/ a/5/ a/x", "a/ a/d= a/x", "o/ a/ a/x>../o a/d/ a/d/y>../../o",
    "a= a/d/ a/d/y/ a/d/y/z",
};
enum { NT = sizeof trees / sizeof *trees };
static const char  *paths[] = {
    "a", "a/", "./a", "/a", "a/d", "a/x", "a/d/y", "a//d", "a/d/", "a/n", "a/n/m", "n/m/k", "n/m/", "n//m", "/n/m", "./n/./m",
    "n/../m", "a/x/y", "", "/", "a/l", ".", "a/./d", "/a/d/../x", "a/l/k", "n///", "a/d/e/n/m", "/n//m/k/",
};
enum { NPA = sizeof paths / sizeof *paths };
static const unsigned  flagv[] = { 0, CORK_FILE_RECURSIVE, CORK_FILE_PERMISSIVE, CORK_FILE_RECURSIVE | CORK_FILE_PERMISSIVE };
static const mode_t  modes[] = { 0755, 0700, 0777 };

/* ------------------------------------------------------------ the rules, by plain system calls (in the twin) */
static int wipe(const char *p)
{
    DIR  *d = opendir(p);
    struct dirent  *e;
    int  rc = 0;
    if (!d) return -1;
    while ((e = readdir(d))) {
        char  t[1600];
        struct stat  st;
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(t, sizeof t, "%s/%s", p, e->d_name);
        if (lstat(t, &st)) { rc = -1; continue; }
        if (S_ISDIR(st.st_mode)) { if (wipe(t)) rc = -1; if (rmdir(t)) rc = -1; }
        else if (unlink(t)) rc = -1;
    }
    closedir(d);
    return rc;
}
static int o_remove(const char *path, unsigned flags)
{
    struct stat  st;
    const char  *p = fsx_real(path);
    if (lstat(p, &st) != 0) return (errno == ENOENT || errno == ENOTDIR) && (flags & CORK_FILE_PERMISSIVE) ? 0 : -1;
    if (S_ISDIR(st.st_mode)) {
        int  rc = 0;
        if (flags & CORK_FILE_RECURSIVE) rc = wipe(p);
        if (rmdir(p)) rc = -1;
        return rc;
    }
    return unlink(p);
}
static int o_mkdir(const char *path, mode_t mode, unsigned flags)
{
    struct stat  st;
    char  t[1600], *c;
    const char  *p = fsx_real(path);
    if (stat(p, &st) == 0) return S_ISDIR(st.st_mode) && (flags & CORK_FILE_PERMISSIVE) ? 0 : -1;
    if (errno != ENOENT && errno != ENOTDIR) return -1;
    if (flags & CORK_FILE_RECURSIVE) {
        snprintf(t, sizeof t, "%s", p);
        for (c = t + 1; *c; c++) {
            if (*c != '/') continue;
            *c = 0;
            if (stat(t, &st) != 0 && mkdir(t, mode) != 0) return -1;
            *c = '/';
        }
        if (stat(t, &st) == 0) return S_ISDIR(st.st_mode) ? 0 : -1;      /* ended in a slash or "." */
    }
    return mkdir(p, mode);
}
static bool touchy(const char *path, bool recursive)
{
    /* removing "link/" or a directory by way of "." or "" is left to the system */
    struct stat  st;
    char  t[1600];
    size_t  n = strlen(path);
    if (n == 0) return false;
    snprintf(t, sizeof t, "%s", path);
    if (recursive && (!strcmp(path, ".") || !strcmp(path, "/"))) return true;
    while (n > 1 && t[n - 1] == '/') t[--n] = 0;
    return path[strlen(path) - 1] == '/' && lstat(fsx_real(t), &st) == 0 && !S_ISDIR(st.st_mode);
}

/* ------------------------------------------------------------ one operation */
enum { Q_EXISTS, Q_TYPE, MKDIR, REMOVE };
static const char  *opn[] = { "exists", "type", "mkdir", "remove" };
static void query(struct cork_file *f, const char *path, int op)
{
    struct stat  st, ls;
    bool  ex = false;
    enum cork_file_type  ty = 99;
    int  rc, s, l, se;
    cork_error_clear();
    s = stat(fsx_real(path), &st); se = errno;
    l = lstat(fsx_real(path), &ls);
    rc = op == Q_EXISTS ? cork_file_exists(f, &ex) : cork_file_type(f, &ty);
    fsx_faults = false;
    mc_check(rc == 0 || rc == -1, "query-result", "%s of %s returns %d", opn[op], path, rc);
    mc_check(cork_error_occurred() == (rc == -1), "query-error", "%s of %s returns %d and %s an error", opn[op], path, rc, cork_error_occurred() ? "sets" : "does not set");
    if (rc == -1) {
        mc_check(fsx_injected || fsx_interrupted || (s != 0 && se != ENOENT && se != ENOTDIR), "query-fails", "%s of %s fails: %s", opn[op], path, cork_error_message());
        mc_check(!(fsx_injected == 1 && !fsx_interrupted) || cork_error_code() == EIO, "query-code", "%s of %s: error %u", opn[op], path, cork_error_code());
        return;
    }
    if (op == Q_EXISTS) mc_check((ex && l == 0) || (!ex && s != 0 && (se == ENOENT || se == ENOTDIR)), "exists", "%s %s", path, ex ? "is said to exist" : "is said not to exist");
    else {
        int  ts = s != 0 ? CORK_FILE_MISSING : S_ISREG(st.st_mode) ? CORK_FILE_REGULAR : S_ISDIR(st.st_mode) ? CORK_FILE_DIRECTORY : CORK_FILE_UNKNOWN;
        bool  link = l == 0 && S_ISLNK(ls.st_mode) && ty == CORK_FILE_SYMLINK;
        mc_check(link || ((int) ty == ts && (s == 0 || se == ENOENT || se == ENOTDIR)), "type", "the type of %s is given as %d, not %d", path, ty, ts);
    }
}
static void change(struct cork_file *f, const char *path, int op, unsigned flags, mode_t mode, const struct fsx_snap *before, const struct fsx_snap *want, int orc)
{
    struct fsx_snap  after;
    const char  *d, *w;
    int  rc;
    cork_error_clear();
    rc = op == MKDIR ? cork_file_mkdir(f, mode, flags) : cork_file_remove(f, flags);
    fsx_faults = false;
    fsx_snapshot(&after);
    mc_check(fsx_open_dirs() == 0, "dir-leak", "%s %s leaves %d directories open", opn[op], path, fsx_open_dirs());
    mc_check(rc == 0 || rc == -1, "result", "%s %s returns %d", opn[op], path, rc);
    mc_check(cork_error_occurred() == (rc == -1), "error", "%s %s (flags %u) returns %d and %s an error (%s failed)", opn[op], path, flags, rc, cork_error_occurred() ? "sets" : "does not set", fsx_where);
    if (rc == 0) {
        mc_check(orc == 0, "succeeds", "%s %s (flags %u) succeeds", opn[op], path, flags);
        d = fsx_diff(&after, want);
        mc_check(d == NULL, "tree", "after %s %s (flags %u), %s", opn[op], path, flags, d);
        mc_cover(op == MKDIR ? "made" : "removed");
    } else {
        mc_check(orc != 0 || fsx_injected || fsx_interrupted, "fails", "%s %s (flags %u) fails: %s", opn[op], path, flags, cork_error_message());
        if (fsx_injected == 1 && fsx_interrupted == 0 && orc == 0)
            mc_check(cork_error_code() == EIO, "code", "%s %s: %s failed with errno %d, the error is %u", opn[op], path, fsx_where, EIO, cork_error_code());
        if (op == MKDIR) {
            mc_check(fsx_subset(before, &after, &w), "lost", "a failed mkdir %s changes %s", path, w);
            mc_check(fsx_subset(&after, want, &w), "extra", "a failed mkdir %s (flags %u) makes %s", path, flags, w);
        } else {
            mc_check(fsx_subset(&after, before, &w), "extra", "a failed remove of %s makes %s", path, w);
            mc_check(fsx_subset(want, &after, &w), "outside", "a failed remove of %s (flags %u) removes %s", path, flags, w);
        }
        if (!fsx_injected && !fsx_interrupted && op == REMOVE && !(flags & CORK_FILE_RECURSIVE))
            mc_check((d = fsx_diff(&after, before)) == NULL, "tree", "after a failed remove of %s, %s", path, d);
        mc_cover(fsx_injected ? "failed by a system call" : fsx_interrupted ? "interrupted" : "refused");
    }
    mc_state(mc_h(mc_h(mc_hbuf(op * 8 + flags, path, strlen(path)), after.n), rc * 7 + fsx_injected));
}

/* A fresh object for one operation, every failure */
enum { NOPS = 2 + 4 + 4 };
static char  bigpath[3][1200];
enum { NBP = 3 };
static void single(int t, int pi, int o)
{
    const char  *tree = t < NT ? trees[t] : fsx_bigtree[t - NT];
    int  op = o < 2 ? o : o < 6 ? MKDIR : REMOVE;
    unsigned  flags = o < 2 ? 0 : flagv[(o - 2) % 4];
    const char  *path = t < NT ? paths[pi] : bigpath[pi];
    mode_t  mode = modes[(t + pi) % 3];
    struct fsx_snap  before, want;
    struct cork_file  *f;
    int  orc = 0;
    size_t  base;
    fsx_reset();
    fsx_enter("b"); fsx_build(tree);
    fsx_snapshot(&before);
    if (op == REMOVE && touchy(path, flags & CORK_FILE_RECURSIVE)) return;
    if (op == MKDIR) orc = o_mkdir(path, mode, flags);
    if (op == REMOVE) orc = !strcmp(path, "/") || !strcmp(path, ".") ? -1 : o_remove(path, flags);
    fsx_snapshot(&want);
    fsx_enter("a"); fsx_build(tree);
    mc_log("%s %s flags %u in \"%.300s\"", opn[op], path, flags, tree);
    base = track_live();
    f = cork_file_new(path);
    mc_set_budget(t < NT ? MC_T(2, 3) : MC_T(1, 2));
    fsx_faults = true;
    if (op < 2) query(f, path, op); else change(f, path, op, flags, mode, &before, &want, orc);
    mc_check(strcmp(cork_path_get(cork_file_path(f)), path) == 0, "path", "the file's path changes to %s", cork_path_get(cork_file_path(f)));
    if (op == MKDIR && !fsx_injected && !fsx_interrupted && orc == 0) query(f, path, Q_TYPE);   /* the same object afterwards */
    if (op == REMOVE && !fsx_injected && !fsx_interrupted && orc == 0) query(f, path, Q_EXISTS);
    cork_file_free(f);
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
}
/* Histories on objects that are kept, the tree changing under them too */
enum { NH = 2 * (2 + 8) + 4 };
static const char  *hpath[] = { "a", "a/b" };
static void history(int first)
{
    struct cork_file  *f[2];
    struct fsx_snap  before, want;
    int  d, depth = MC_T(4, 5), i;
    size_t  base;
    char  ra[400], rb[400];
    fsx_reset();
    fsx_enter("b"); strcpy(rb, fsx_root);
    fsx_enter("a"); strcpy(ra, fsx_root);
    base = track_live();
    for (i = 0; i < 2; i++) f[i] = i ? cork_file_new_from_path(cork_path_new(hpath[i])) : cork_file_new(hpath[i]);
    for (d = 0; d < depth; d++) {
        int  k = d == 0 ? first : mc_choose(NH);
        fsx_snapshot(&before);
        if (k < 20) {
            int  w = k / 10, o = k % 10, op = o < 2 ? o : o < 6 ? MKDIR : REMOVE, orc = 0;
            unsigned  flags = o < 2 ? 0 : flagv[(o - 2) % 4];
            mc_log("%s %s flags %u", opn[op], hpath[w], flags);
            if (op < 2) query(f[w], hpath[w], op);
            else {
                strcpy(fsx_root, rb); chdir(rb);
                orc = op == MKDIR ? o_mkdir(hpath[w], 0755, flags) : o_remove(hpath[w], flags);
                fsx_snapshot(&want);
                strcpy(fsx_root, ra); chdir(ra);
                change(f[w], hpath[w], op, flags, 0755, &before, &want, orc);
            }
        } else {
            const char  *r;
            int  j;
            mc_log("from outside: %s", (const char *[]) { "mkdir a", "create a", "create a/b", "rm -r a" }[k - 20]);
            for (j = 0; j < 2; j++) {
                r = j ? ra : rb;
                chdir(r);
                if (k == 20) mkdir("a", 0755);
                else if (k == 21) { i = open("a", O_CREAT | O_WRONLY, 0644); if (i >= 0) close(i); }
                else if (k == 22) { i = open("a/b", O_CREAT | O_WRONLY, 0644); if (i >= 0) close(i); }
                else { unlink("a/b"); rmdir("a/b"); unlink("a"); rmdir("a"); }
            }
        }
        mc_step();
    }
    for (i = 0; i < 2; i++) { query(f[i], hpath[i], Q_EXISTS); query(f[i], hpath[i], Q_TYPE); }
    for (i = 0; i < 2; i++) cork_file_free(f[i]);
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
}

int mc_roots(void) { return NH + NT * NPA + FSX_NBIG * NBP * NOPS; }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < NH) snprintf(b, n, "histories from operation %d", r);
    else if (r >= NH + NT * NPA) { r -= NH + NT * NPA; snprintf(b, n, "\"%.80s\" in a tree of %s", bigpath[r / NOPS % NBP], fsx_bign[r / NOPS / NBP]); }
    else snprintf(b, n, "\"%s\" in tree \"%s\"", paths[(r - NH) % NPA], trees[(r - NH) / NPA]);
}
void mc_init(void)
{
    int  i;
    track_install(); track_prime(); fsx_init(); fsx_grow();
    strcpy(bigpath[0], "a");
    strcpy(bigpath[1], "a"); strcpy(bigpath[2], "a");
    for (i = 0; i < 45; i++) { sprintf(bigpath[1] + strlen(bigpath[1]), "/l%d", i); sprintf(bigpath[2] + strlen(bigpath[2]), "/n%s%d", i % 3 ? "" : "/", i); }
}
void mc_run(int r)
{
    cork_error_set_printf(CORK_PARSE_ERROR, "x");
    mc_crash_key("crash");
    if (r < NH) history(r);
    else if (r >= NH + NT * NPA) { r -= NH + NT * NPA; single(NT + r / NOPS / NBP, r / NOPS % NBP, r % NOPS); }
    else single((r - NH) / NPA, (r - NH) % NPA, mc_choose(NOPS));
}
