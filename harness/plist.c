/* C35: path lists, searches in them, and the standard paths. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/os.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mc.h"
#include "track.h"
#include "scratch.h"
const char *mc_harness_name = HARNESS_NAME;
static const char  *top;

/* ------------------------------------------------------------ building */
struct model { char s[600]; char el[24][60]; int n; };
static void m_add(struct model *m, const char *p)
{ if (m->n) strcat(m->s, ":"); strcat(m->s, p); strcpy(m->el[m->n++], p); }
static void m_split(struct model *m, const char *s)
{
    char  t[100];
    for (;;) {
        const char  *c = strchrnul(s, ':');
        memcpy(t, s, c - s); t[c - s] = 0;
        m_add(m, t);
        if (!*c) return;
        s = c + 1;
    }
}
static void list_is(const struct cork_path_list *l, const struct model *m, const char *what)
{
    int  i;
    const char  *s = cork_path_list_to_string(l);
    mc_check(cork_path_list_size(l) == (size_t) m->n, "size", "%s: %zu elements, not %d", what, cork_path_list_size(l), m->n);
    mc_check(s != NULL, "string", "%s: the list has no string", what);
    mc_check(strcmp(s, m->s) == 0, "string", "%s: the list prints as %s, not %s", what, mc_quote(s, strlen(s)), mc_quote(m->s, strlen(m->s)));
    for (i = 0; i < m->n; i++) {
        const char  *e = cork_path_get(cork_path_list_get(l, i));
        mc_check(e != NULL && strcmp(e, m->el[i]) == 0, "element", "%s: element %d is %s, not %s", what, i, e ? mc_quote(e, strlen(e)) : "NULL", m->el[i]);
    }
}
static void files_are(struct cork_file_list *f, const struct model *m, const char *what)
{
    int  i;
    mc_check(cork_file_list_size(f) == (size_t) m->n, "files", "%s: %zu files, not %d", what, cork_file_list_size(f), m->n);
    for (i = 0; i < m->n; i++) {
        const char  *e = cork_path_get(cork_file_path(cork_file_list_get(f, i)));
        mc_check(strcmp(e, m->el[i]) == 0, "files", "%s: file %d is %s, not %s", what, i, mc_quote(e, strlen(e)), m->el[i]);
    }
}
static const char  alpha[] = ":a/.";
#define LEN  MC_T(7, 9)
static long total(void) { long  n = 0, p = 1; int  i; for (i = 0; i <= LEN; i++) { n += p; p *= 4; } return n; }
static void nth(long n, char *s)
{
    int  l = 0, i;
    long  p = 1;
    while (n >= p) { n -= p; p *= 4; l++; }
    for (i = 0; i < l; i++) { s[i] = alpha[n % 4]; n /= 4; }
    s[l] = 0;
}
#define BLOCK 64
static int build_roots(void) { return (total() + BLOCK - 1) / BLOCK; }
static void build(int r)
{
    long  i;
    char  s[20];
    for (i = (long) r * BLOCK; i < (long) (r + 1) * BLOCK && i < total(); i++) {
        struct cork_path_list  *l;
        struct cork_file_list  *f;
        struct model  m;
        nth(i, s);
        memset(&m, 0, sizeof m);
        mc_eval(1);
        l = cork_path_list_new(s);
        m_split(&m, s);
        list_is(l, &m, "a list from a string");
        f = cork_file_list_new(l);
        files_are(f, &m, "the files of a list");
        cork_path_list_add(l, cork_path_new("x/y")); m_add(&m, "x/y"); list_is(l, &m, "after an addition");
        cork_path_list_add(l, cork_path_new(NULL)); m_add(&m, ""); list_is(l, &m, "after adding an empty path");
        mc_check(cork_file_list_size(f) + 2 == (size_t) m.n, "files", "adding to the path list changes the file list");
        cork_file_list_add(f, cork_file_new("x/y")); cork_file_list_add(f, cork_file_new(NULL));
        files_are(f, &m, "a file list after additions");
        cork_file_list_free(f);
        cork_path_list_free(l);
        mc_step();
        mc_state(mc_hbuf(1, s, strlen(s)));
    }
}
static void build_hist(void)
{
    static const char  *w[] = { "", "a", "/b", "c:d", "longer/than/sixteen/characters" };
    struct cork_path_list  *l = cork_path_list_new_empty();
    struct cork_file_list  *f = cork_file_list_new_empty();
    struct model  m;
    int  i, n = MC_T(5, 7), k;
    memset(&m, 0, sizeof m);
    list_is(l, &m, "a new list");
    for (i = 0; i < n; i++) {
        k = mc_choose(5);
        mc_log("add \"%s\"", w[k]);
        cork_path_list_add(l, cork_path_new(w[k])); cork_file_list_add(f, cork_file_new(w[k])); m_add(&m, w[k]);
        mc_step();
        list_is(l, &m, "after an addition"); files_are(f, &m, "after an addition");
        mc_state(mc_hbuf(2, m.s, strlen(m.s)));
    }
    cork_path_list_free(l);
    cork_file_list_free(f);
}

/* long elements and many of them; a search must pass all the ones without the file */
static void many(void)
{
    static const int  len[] = { 0, 1, 15, 16, 17, 100, 254, 255, 256, 1000, 4096, 5000 };
    static const int  cnt[] = { 1, 2, 3, 16, 17, 100 };
    static char  want[520000];
    int  ln = len[mc_choose(12)], n = cnt[mc_choose(6)], how = mc_choose(2), other = mc_choose(2), i;
    char  *el = malloc(ln + 40), *o = want;
    struct cork_path_list  *l;
    struct cork_file_list  *f;
    struct cork_file  *hit;
    l = how ? cork_path_list_new_empty() : NULL;
    for (i = 0; i < n; i++) {
        int  k = other && i % 2 ? 3 : ln;
        memset(el, 'a' + i % 26, k); el[k] = 0;
        if (how) cork_path_list_add(l, cork_path_new(el));
        if (i) *o++ = ':';
        o += sprintf(o, "%s", el);
    }
    *o = 0;
    if (!how) l = cork_path_list_new(want);
    mc_check(cork_path_list_size(l) == (size_t) n, "size", "a list of %d elements of length %d has %zu", n, ln, cork_path_list_size(l));
    mc_check(strcmp(cork_path_list_to_string(l), want) == 0, "string", "a list of %d elements of length %d prints wrongly", n, ln);
    f = cork_file_list_new(l);
    mc_check(cork_file_list_size(f) == (size_t) n, "files", "a list of %d files has %zu", n, cork_file_list_size(f));
    for (i = 0; i < n; i++) {
        int  k = other && i % 2 ? 3 : ln;
        memset(el, 'a' + i % 26, k); el[k] = 0;
        mc_check(strcmp(cork_path_get(cork_path_list_get(l, i)), el) == 0, "element", "element %d of %d of length %d is wrong", i, n, ln);
        mc_check(strcmp(cork_path_get(cork_file_path(cork_file_list_get(f, i))), el) == 0, "files", "file %d of %d of length %d is wrong", i, n, ln);
        mc_step();
    }
    cork_file_list_free(f);
    if (ln > 0 && ln < 250) {
        char  t[300];
        int  fd;
        /* only the last element has the file */
        cork_path_list_add(l, cork_path_new("zz-last"));
        mkdir("zz-last", 0755); fd = open("zz-last/f", O_CREAT | O_WRONLY, 0644); close(fd);
        cork_error_clear();
        hit = cork_path_list_find_file(l, "f");
        mc_check(hit != NULL && !cork_error_occurred(), "find", "a file in element %d of %d isn't found", n, n + 1);
        snprintf(t, sizeof t, "zz-last/f");
        mc_check(strcmp(cork_path_get(cork_file_path(hit)), t) == 0, "find", "the file found is %s", cork_path_get(cork_file_path(hit)));
        cork_file_free(hit);
        f = cork_path_list_find_files(l, "f");
        mc_check(f != NULL && cork_file_list_size(f) == 1 && !strcmp(cork_path_get(cork_file_path(cork_file_list_get(f, 0))), t), "find-files", "the files found in %d elements are wrong", n + 1);
        cork_file_list_free(f);
        unlink("zz-last/f"); rmdir("zz-last");
        mc_cover("found in the last of many");
    }
    cork_path_list_free(l);
    free(el);
    mc_state(mc_h(mc_h(ln, n), how * 2 + other));
}

/* ------------------------------------------------------------ searching */
enum { K_NONE, K_REG, K_DIR, K_LINK, NK };
static int  have[4];             /* what "f" is in d0, d1, d2 and here */
static bool exists_f(const char *where)
{
    char  t[600], *p = t, *e;
    snprintf(t, sizeof t, "%s", where);
    if (strncmp(t, top, strlen(top)) == 0) p = t + strlen(top) + 1;
    while ((e = strstr(p, "//")) != NULL) memmove(e, e + 1, strlen(e));
    if (!strcmp(p, "f")) return have[3];
    if (p[0] == 'd' && p[1] >= '0' && p[1] <= '2' && p[2] == '/' && !strcmp(p + 3, "f")) return have[p[1] - '0'];
    if (p[0] == 'd' && p[1] >= '0' && p[1] <= '2' && (p[2] == 0 || (p[2] == '/' && p[3] == 0))) return true;
    if (!strcmp(p, "reg") || !strcmp(p, "") || !strcmp(p, "locked")) return *where != 0;
    return false;
}
static char  absd1[500], absrel[500], relmiss[500];
static const char  *elems[] = { "d0", "d1", "d2", "", "missing", "reg", "d0/", absd1, "locked" };
#define NE 9
static const char  *rels[] = { "f", absrel, "g", "", NULL };
#define NR 5
static int  nonblocked;
static void search(const int *e, int n, int rel)
{
    struct cork_path_list  *l = cork_path_list_new_empty();
    struct cork_file  *f;
    struct cork_file_list  *fl;
    struct model  m;                 /* matches */
    int  i, first = -1;
    bool  blocked = false, blocked_before = false;
    char  where[600], firstwhere[600] = "";
    memset(&m, 0, sizeof m);
    mc_eval(1);
    for (i = 0; i < n; i++) {
        const char  *d = elems[e[i]], *r = rels[rel];
        bool  lock = e[i] == 8 && r && *r && *r != '/';
        cork_path_list_add(l, cork_path_new(d));
        if (r == NULL || *r == 0) snprintf(where, sizeof where, "%s", d);
        else if (*r == '/') snprintf(where, sizeof where, "%s", r);
        else snprintf(where, sizeof where, "%s%s%s", d, *d == 0 || d[strlen(d) - 1] == '/' ? "" : "/", r);
        if (lock) { if (!blocked && first < 0) blocked_before = true; blocked = true; continue; }
        if (!exists_f(where)) continue;
        if (first < 0) { first = i; strcpy(firstwhere, where); }
        if (!blocked && m.n < 24) { snprintf(m.el[m.n], sizeof m.el[0], "%.59s", where); m.n++; }
    }
    cork_error_clear();
    f = cork_path_list_find_file(l, rels[rel]);
    if (first >= 0 && !blocked_before) {
        mc_check(f != NULL, "not-found", "%s isn't found in %s though %s exists", rels[rel] ? rels[rel] : "NULL", cork_path_list_to_string(l), firstwhere);
        mc_check(!cork_error_occurred(), "found-error", "finding a file sets an error");
        mc_check(strcmp(cork_path_get(cork_file_path(f)), firstwhere) == 0, "which", "looking for %s in %s finds %s, not %s", rels[rel], cork_path_list_to_string(l), cork_path_get(cork_file_path(f)), firstwhere);
        cork_file_free(f);
    } else {
        mc_check(f == NULL, "made-up", "%s is found in %s", rels[rel] ? rels[rel] : "NULL", cork_path_list_to_string(l));
        mc_check(cork_error_occurred(), "no-error", "finding nothing sets no error");
        if (!blocked_before) mc_check(cork_error_code() == ENOENT, "error", "finding nothing sets error %u", cork_error_code());
    }
    cork_error_clear();
    fl = cork_path_list_find_files(l, rels[rel]);
    if (blocked) {
        mc_check(fl == NULL && cork_error_occurred(), "blocked", "a list with an unreadable directory is searched without an error");
    } else {
        mc_check(fl != NULL && !cork_error_occurred(), "find-files", "looking for all matches fails");
        mc_check(cork_file_list_size(fl) == (size_t) m.n, "all", "looking for all %s in %s finds %zu, not %d", rels[rel] ? rels[rel] : "NULL", cork_path_list_to_string(l), cork_file_list_size(fl), m.n);
        for (i = 0; i < m.n; i++) {
            const char  *g = cork_path_get(cork_file_path(cork_file_list_get(fl, i)));
            mc_check(strncmp(g, m.el[i], 59) == 0, "all", "match %d of %s in %s is %s, not %s", i, rels[rel], cork_path_list_to_string(l), g, m.el[i]);
        }
        cork_file_list_free(fl);
    }
    cork_path_list_free(l);
    nonblocked += !blocked;
}
static void put(const char *dir, int k)
{
    char  t[100];
    int  fd;
    snprintf(t, sizeof t, "%s/f", dir);
    if (k == K_REG) { fd = open(t, O_CREAT | O_WRONLY | O_EXCL, 0600); if (fd < 0) mc_internal("create %s", t); close(fd); }
    else if (k == K_DIR) { if (mkdir(t, 0755)) mc_internal("mkdir %s", t); }
    else if (k == K_LINK) { if (symlink(".", t)) mc_internal("symlink %s", t); }
}
static void searches(int place0)
{
    int  i, n, rel, e[3], maxn = 3, place = place0;
    static const char  *dirs[] = { "d0", "d1", "d2", "." };
    scratch_wipe(top);
    for (i = 0; i < 4; i++) {
        have[i] = place % NK; place /= NK;
        if (i < 3 && mkdir(dirs[i], 0755)) mc_internal("mkdir");
        put(dirs[i], have[i]);
    }
    i = open("reg", O_CREAT | O_WRONLY, 0600); close(i);
    if (mkdir("locked", 0)) mc_internal("mkdir locked");
    for (n = 0; n <= maxn; n++)
        for (rel = 0; rel < NR; rel++) {
            int  c, all = 1;
            for (i = 0; i < n; i++) all *= NE;
            for (c = 0; c < all; c++) {
                int  x = c;
                for (i = 0; i < n; i++) { e[i] = x % NE; x /= NE; }
                search(e, n, rel);
                mc_state(mc_h(mc_h(place0, c * 8 + rel), n));
            }
            mc_step();
        }
    if (mc_thorough) {           /* longer lists, of the places that matter */
        int  x[5], c;
        (void) x;
        for (c = 0; c < 4096; c++) { int  f4[6], k, y = c; for (k = 0; k < 6; k++) { f4[k] = y % 4; y /= 4; } search(f4, 6, 0); }
    }
    chmod("locked", 0755);
}

/* ------------------------------------------------------------ standard paths */
static const char  *homes[] = { NULL, "", "/h", "/h/", "/" };
static const char  *dirsv[] = { NULL, "", "/x", "/x/", "/x:y" };
static const char  *lists[] = { NULL, "", "/d", "/d1:/d2", "/d1::/d2", ":", "/a:/b:/c" };
static void set(const char *n, const char *v) { if (v) setenv(n, v, 1); else unsetenv(n); }
static const char  *names[] = { "HOME", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR" };
static bool given(const char *v) { return v && *v; }
static char *under(const char *home, const char *sub, char *t)
{ sprintf(t, "%s%s%s", home, home[strlen(home) - 1] == '/' ? "" : "/", sub); return t; }
static void one_path(struct cork_path *p, const char *want, const char *what)
{
    if (want == NULL) {
        mc_check(p == NULL, "std-made-up", "%s is %s though nothing defines it", what, cork_path_get(p));
        mc_check(cork_error_occurred(), "std-no-error", "%s sets no error", what);
    } else {
        mc_check(p != NULL && !cork_error_occurred(), "std-missing", "%s isn't found, should be %s", what, want);
        mc_check(strcmp(cork_path_get(p), want) == 0, "std", "%s is %s, not %s", what, cork_path_get(p), want);
        cork_path_free(p);
    }
    cork_error_clear();
}
static void std_paths(int root)
{
    const char  *home = homes[root % 5], *noise = root / 5 % 2 ? "/noise" : NULL;
    int  i, j, which;
    char  t[300];
    for (which = 0; which < 2; which++)
        for (i = 0; i < 5; i++)
            for (j = 0; j < 7; j++) {
                struct cork_path_list  *l;
                struct model  m;
                int  k;
                memset(&m, 0, sizeof m);
                for (k = 0; k < 7; k++) set(names[k], noise);
                set("HOME", home);
                set(names[1 + 2 * which], dirsv[i]); set(names[2 + 2 * which], lists[j]);
                mc_eval(1);
                cork_error_clear();
                l = which ? cork_path_data_paths() : cork_path_config_paths();
                if (!given(dirsv[i]) && !given(home)) {
                    mc_check(l == NULL, "std-made-up", "there are %s paths without a home", which ? "data" : "configuration");
                    mc_check(cork_error_occurred(), "std-no-error", "undefined paths set no error");
                    continue;
                }
                mc_check(l != NULL && !cork_error_occurred(), "std-missing", "there are no %s paths", which ? "data" : "configuration");
                m_add(&m, given(dirsv[i]) ? dirsv[i] : under(home, which ? ".local/share" : ".config", t));
                if (given(lists[j])) m_split(&m, lists[j]);
                else if (which) m_split(&m, "/usr/local/share:/usr/share");
                else m_add(&m, "/etc/xdg");
                list_is(l, &m, which ? "the data paths" : "the configuration paths");
                cork_path_list_free(l);
                mc_step();
                mc_state(mc_hbuf(which, m.s, strlen(m.s)));
            }
    for (i = 0; i < 5; i++) {
        for (j = 0; j < 7; j++) set(names[j], noise);
        set("HOME", home);
        cork_error_clear();
        one_path(cork_path_home(), given(home) ? home : NULL, "the home directory");
        set("XDG_CACHE_HOME", dirsv[i]);
        one_path(cork_path_user_cache_path(), given(dirsv[i]) ? dirsv[i] : given(home) ? under(home, ".cache", t) : NULL, "the cache directory");
        set("XDG_RUNTIME_DIR", dirsv[i]);
        one_path(cork_path_user_runtime_path(), given(dirsv[i]) ? dirsv[i] : NULL, "the runtime directory");
        mc_eval(3);
    }
}

/* ------------------------------------------------------------ roots */
#define NPLACE 256
int mc_roots(void) { return 10 + NPLACE + 1 + build_roots() + 1; }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < 10) snprintf(b, n, "standard paths, HOME=%s", homes[r % 5] ? homes[r % 5] : "(unset)");
    else if (r < 10 + NPLACE) snprintf(b, n, "searches, placement %d", r - 10);
    else if (r == 10 + NPLACE) snprintf(b, n, "additions to an empty list");
    else if (r == mc_roots() - 1) snprintf(b, n, "long lists");
    else snprintf(b, n, "list strings %d..", (r - 11 - NPLACE) * BLOCK);
}
void mc_init(void)
{
    track_install();
    track_prime();
    top = scratch_enter();
    snprintf(absd1, sizeof absd1, "%s/d1", top);
    snprintf(absrel, sizeof absrel, "%s/d2/f", top);
}
void mc_run(int r)
{
    size_t  base;
    cork_error_set_printf(CORK_PARSE_ERROR, "x");
    cork_error_clear();
    base = track_live();
    mc_crash_key("crash");
    if (r < 10) std_paths(r);
    else if (r < 10 + NPLACE) searches(r - 10);
    else if (r == 10 + NPLACE) build_hist();
    else if (r == mc_roots() - 1) many();
    else build(r - 11 - NPLACE);
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
}
