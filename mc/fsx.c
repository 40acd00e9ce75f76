#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mc.h"
#include "scratch.h"
#include "fsx.h"
char  fsx_root[400];
static char  base[400];
bool  fsx_faults;
int  fsx_injected, fsx_interrupted, fsx_errno;
const char  *fsx_where = "";
static DIR  *dirs[64];
static int  ndirs;

void fsx_init(void) { snprintf(base, sizeof base, "%s", scratch_enter()); umask(022); }
void fsx_reset(void) { ndirs = 0; fsx_injected = fsx_interrupted = fsx_errno = 0; fsx_where = ""; fsx_faults = false; }
int fsx_open_dirs(void) { return ndirs; }
void fsx_enter(const char *sub)
{
    snprintf(fsx_root, sizeof fsx_root, "%.300s/%s", base, sub);
    if (mkdir(fsx_root, 0755) != 0 && errno != EEXIST) mc_internal("mkdir %s", fsx_root);
    scratch_wipe(fsx_root);
    if (chdir(fsx_root) != 0) mc_internal("chdir %s", fsx_root);
}
const char *fsx_real(const char *p)
{
    static char  bufs[4][1200];
    static int  i;
    const char  *c;
    int  depth = 0;
    if (p == NULL) mc_fail("null-path", "a system call is given a NULL path");
    for (c = p; *c; ) {
        const char  *e = strchrnul(c, '/');
        if (e - c == 2 && c[0] == '.' && c[1] == '.') depth--;
        else if (e > c && !(e - c == 1 && *c == '.')) depth++;
        if (depth < 0) mc_fail("escape", "the library names %s", mc_quote(p, strlen(p)));
        c = *e ? e + 1 : e;
    }
    if (*p != '/') return p;
    i = (i + 1) % 4;
    snprintf(bufs[i], sizeof bufs[i], "%s%s", fsx_root, p);
    return bufs[i];
}
static bool fault(const char *call, const char *path)
{
    int  k;
    mc_step();
    mc_log("    %s(%s)", call, path);
    if (!fsx_faults) return false;
    k = mc_choose_dev(3);
    if (k == 0) return false;
    if (k == 1) { mc_log("      fails"); if (fsx_injected++ == 0) { fsx_errno = EIO; fsx_where = call; } errno = EIO; }
    else { mc_log("      is interrupted"); fsx_interrupted++; errno = EINTR; }
    return true;
}
static bool at_root(const char *path)
{
    struct stat  a, b;
    return lstat(fsx_real(path), &a) == 0 && stat(fsx_root, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
}
int mcw_stat(const char *p, struct stat *st) { const char  *r = fsx_real(p); return fault("stat", p) ? -1 : stat(r, st); }
int mcw_lstat(const char *p, struct stat *st) { const char  *r = fsx_real(p); return fault("lstat", p) ? -1 : lstat(r, st); }
int mcw_fstatat(int fd, const char *p, struct stat *st, int fl)
{
    const char  *r = fsx_real(p);
    if (fault("fstatat", p)) return -1;
    return fstatat(fd, r, st, fl);
}
int mcw_access(const char *p, int m) { const char  *r = fsx_real(p); return fault("access", p) ? -1 : access(r, m); }
int mcw_mkdir(const char *p, mode_t m) { const char  *r = fsx_real(p); return fault("mkdir", p) ? -1 : mkdir(r, m); }
int mcw_rmdir(const char *p)
{
    const char  *r = fsx_real(p);
    if (fault("rmdir", p)) return -1;
    if (at_root(p)) { errno = EBUSY; return -1; }
    return rmdir(r);
}
int mcw_unlink(const char *p) { const char  *r = fsx_real(p); return fault("unlink", p) ? -1 : unlink(r); }
int mcw_unlinkat(int fd, const char *p, int fl)
{
    const char  *r = fsx_real(p);
    if (fault("unlinkat", p)) return -1;
    if ((fl & AT_REMOVEDIR) && fd == AT_FDCWD && at_root(p)) { errno = EBUSY; return -1; }
    return unlinkat(fd, r, fl);
}
int mcw_remove(const char *p)
{
    const char  *r = fsx_real(p);
    if (fault("remove", p)) return -1;
    if (at_root(p)) { errno = EBUSY; return -1; }
    return remove(r);
}
DIR *mcw_opendir(const char *p)
{
    const char  *r = fsx_real(p);
    DIR  *d;
    if (fault("opendir", p)) return NULL;
    d = opendir(r);
    if (d) { if (ndirs == 64) mc_fail("dirs", "64 directories are open"); dirs[ndirs++] = d; }
    return d;
}
static int known(DIR *d, const char *what)
{
    int  i;
    for (i = 0; i < ndirs; i++) if (dirs[i] == d) return i;
    mc_fail("closed-dir", "%s of a directory that isn't open", what);
}
struct dirent *mcw_readdir(DIR *d)
{
    known(d, "readdir");
    if (fault("readdir", "")) return NULL;
    return readdir(d);
}
int mcw_dirfd(DIR *d) { known(d, "dirfd"); return dirfd(d); }
void mcw_rewinddir(DIR *d) { known(d, "rewinddir"); rewinddir(d); }
int mcw_closedir(DIR *d)
{
    int  i = known(d, "closedir"), rc;
    bool  bad = fault("closedir", "");
    int  e = errno;
    dirs[i] = dirs[--ndirs];         /* gone, whatever it returns */
    rc = closedir(d);
    if (bad) { errno = e; return -1; }
    return rc;
}

/* ------------------------------------------------------------ trees */
char  fsx_bigtree[FSX_NBIG][11000];
const char  *fsx_bign[FSX_NBIG] = { "90 entries", "40 levels", "long names", "5 levels of 3" };
static void bushy(char *o, const char *at, int levels)
{
    char  p[200];
    int  i;
    for (i = 0; i < 2; i++) {
        snprintf(p, sizeof p, "%s/%c", at, 'p' + i);
        sprintf(o + strlen(o), " %s%s", p, levels > 1 ? "/" : "");
        if (levels > 1) bushy(o, p, levels - 1);
    }
    sprintf(o + strlen(o), " %s/f", at);
}
void fsx_grow(void)
{
    char  p[1200], *o;
    int  i;
    o = fsx_bigtree[WIDE]; o += sprintf(o, "a/");
    for (i = 0; i < 90; i++) o += sprintf(o, " a/entry-%d%s", i * 7919, i % 9 == 4 ? "/" : "");
    o = fsx_bigtree[DEEP]; o += sprintf(o, "a/"); strcpy(p, "a");
    for (i = 0; i < 40; i++) {
        if (i % 10 == 3) o += sprintf(o, " %s/before", p);
        sprintf(p + strlen(p), "/l%d", i); o += sprintf(o, " %s/", p);
    }
    o += sprintf(o, " %s/bottom", p);
    o = fsx_bigtree[LONG]; o += sprintf(o, "a/"); strcpy(p, "a");
    for (i = 0; i < 4; i++) {
        size_t  n = strlen(p);
        p[n] = '/'; memset(p + n + 1, 'q' + i, 230); p[n + 231] = 0;
        o += sprintf(o, " %s/ %s/f %s/z", p, p, p);
    }
    o = fsx_bigtree[BUSHY]; sprintf(o, "a/"); bushy(o, "a", 4);
}
void fsx_build(const char *spec)
{
    char  t[12000], *p, *save;
    char  late[10][1200];
    mode_t  latemode[10];
    int  nlate = 0, fd;
    if (strlen(spec) >= sizeof t) mc_internal("large tree");
    snprintf(t, sizeof t, "%s", spec);
    for (p = strtok_r(t, " ", &save); p; p = strtok_r(NULL, " ", &save)) {
        size_t  n = strlen(p);
        char  k = p[n - 1], *l = strchr(p, '>');
        int  rc = 0;
        if (l) { *l = 0; rc = symlink(l + 1, p); }
        else if (k == '/' || k == '!' || k == '=' || k == '#') {
            p[n - 1] = 0;
            rc = mkdir(p, 0755);
            if (k != '/') { strcpy(late[nlate], p); latemode[nlate++] = k == '!' ? 0 : k == '#' ? 0444 : 0555; }
        } else if (k == '|') { p[n - 1] = 0; rc = mkfifo(p, 0644); }
        else { fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0644); rc = fd < 0 ? -1 : close(fd); }
        if (rc != 0) mc_internal("building %.200s of \"%.200s\": %s", p, spec, strerror(errno));
    }
    while (nlate > 0) { nlate--; chmod(late[nlate], latemode[nlate]); }
}
static void snap(struct fsx_snap *s, int dfd, const char *prefix)
{
    DIR  *d = fdopendir(dfd);
    struct dirent  *e;
    while ((e = readdir(d)) != NULL) {
        struct stat  st;
        int  i, c;
        bool  locked;
        char  path[1200];
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        if (fstatat(dirfd(d), e->d_name, &st, AT_SYMLINK_NOFOLLOW) != 0) mc_internal("fstatat");
        if (s->n == FSX_MAX) mc_internal("snapshot too large");
        snprintf(path, sizeof path, "%s%s", prefix, e->d_name);
        for (i = s->n++; i > 0 && strcmp(s->e[i - 1].path, path) > 0; i--) s->e[i] = s->e[i - 1];
        strcpy(s->e[i].path, path);
        s->e[i].type = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISLNK(st.st_mode) ? 'l' : S_ISFIFO(st.st_mode) ? 'p' : '?';
        s->e[i].mode = st.st_mode & 07777;
        s->e[i].target[0] = 0;
        if (S_ISLNK(st.st_mode)) { ssize_t  r = readlinkat(dirfd(d), e->d_name, s->e[i].target, 59); s->e[i].target[r > 0 ? r : 0] = 0; }
        if (S_ISDIR(st.st_mode)) {
            locked = (st.st_mode & 0500) != 0500;
            if (locked) fchmodat(dirfd(d), e->d_name, 0755, 0);
            c = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
            if (c < 0) mc_internal("openat %s", path);
            strcat(path, "/");
            snap(s, c, path);
            if (locked) fchmodat(dirfd(d), e->d_name, st.st_mode & 07777, 0);
        }
    }
    closedir(d);
}
void fsx_snapshot(struct fsx_snap *s)
{
    int  fd = open(fsx_root, O_RDONLY | O_DIRECTORY);
    s->n = 0;
    if (fd < 0) mc_fail("escape", "the root directory is gone");
    snap(s, fd, "");
}
static char  msg[200];
const char *fsx_diff(const struct fsx_snap *a, const struct fsx_snap *b)
{
    int  i;
    for (i = 0; i < a->n || i < b->n; i++) {
        int  c = i >= a->n ? 1 : i >= b->n ? -1 : strcmp(a->e[i].path, b->e[i].path);
        if (c < 0) { snprintf(msg, sizeof msg, "%s is there", a->e[i].path); return msg; }
        if (c > 0) { snprintf(msg, sizeof msg, "%s is missing", b->e[i].path); return msg; }
        if (a->e[i].type != b->e[i].type) { snprintf(msg, sizeof msg, "%s has type %c, not %c", a->e[i].path, a->e[i].type, b->e[i].type); return msg; }
        if (a->e[i].mode != b->e[i].mode) { snprintf(msg, sizeof msg, "%s has mode %o, not %o", a->e[i].path, a->e[i].mode, b->e[i].mode); return msg; }
        if (strcmp(a->e[i].target, b->e[i].target)) { snprintf(msg, sizeof msg, "%s links elsewhere", a->e[i].path); return msg; }
    }
    return NULL;
}
bool fsx_subset(const struct fsx_snap *a, const struct fsx_snap *b, const char **what)
{
    int  i, j;
    for (i = 0; i < a->n; i++) {
        for (j = 0; j < b->n; j++)
            if (!strcmp(a->e[i].path, b->e[j].path) && a->e[i].type == b->e[j].type && a->e[i].mode == b->e[j].mode) break;
        if (j == b->n) { *what = a->e[i].path; return false; }
    }
    return true;
}
