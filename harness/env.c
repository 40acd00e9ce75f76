/* C31: environments against maps (--arg env); what an exec really starts (--arg exec).
 * The library's exec*() and chdir() calls come here and are only recorded. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/os.h>
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <unistd.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
extern char **environ;

/* ------------------------------------------------------------ recorded calls */
enum { MAXP = 120 };
static struct { int n; char program[40], arg[MAXP][40], env[MAXP][60]; int argc, envc; bool search; }  started;
static char  cwd[40];
static int  chdirs, chdir_outcome, exec_outcome, chdirs_after_exec;
static jmp_buf  gone;
static int start(const char *program, char *const *argv, char *const *envp, bool search)
{
    int  i;
    started.n++;
    snprintf(started.program, sizeof started.program, "%s", program);
    for (i = 0; argv[i]; i++) { if (i >= MAXP) mc_fail("params", "endless parameters"); snprintf(started.arg[i], 40, "%s", argv[i]); }
    started.argc = i;
    for (i = 0; envp && envp[i]; i++) { if (i >= MAXP) mc_fail("env", "endless environment"); snprintf(started.env[i], 60, "%s", envp[i]); }
    started.envc = i;
    started.search = search || strchr(program, '/');
    if (exec_outcome) { errno = exec_outcome; return -1; }
    longjmp(gone, 1);
}
int mcw_execvp(const char *f, char *const v[]) { return start(f, v, environ, true); }
int mcw_execvpe(const char *f, char *const v[], char *const e[]) { return start(f, v, e, true); }
int mcw_execv(const char *f, char *const v[]) { return start(f, v, environ, false); }
int mcw_execve(const char *f, char *const v[], char *const e[]) { return start(f, v, e, false); }
int mcw_chdir(const char *d)
{
    if (started.n) chdirs_after_exec++;
    if (chdir_outcome == EINTR && chdirs == 0) { chdirs++; errno = EINTR; return -1; }
    chdirs++;
    if (chdir_outcome && chdir_outcome != EINTR) { errno = chdir_outcome; return -1; }
    snprintf(cwd, sizeof cwd, "%s", d);
    return 0;
}

/* ------------------------------------------------------------ models */
#define NN 3
static const char  *names[NN] = { "A", "AB", "PATH" };
static const char  *const vals[] = { "", "v", "x=y, and a value that is longer than any small buffer" };
#define NV 3
#define VLEN 160
struct map { char v[NN][VLEN]; bool has[NN]; };
static void m_set(struct map *m, int n, const char *v) { m->has[n] = true; snprintf(m->v[n], VLEN, "%s", v); }
static void env_is(struct cork_env *e, const struct map *m, const char *what)
{
    int  i;
    for (i = 0; i < NN; i++) {
        const char  *g = cork_env_get(e, names[i]);
        mc_check((g != NULL) == m->has[i], "get", "%s: %s is %s", what, names[i], g ? "there" : "missing");
        if (g) mc_check(strcmp(g, m->v[i]) == 0, "value", "%s: %s is %s, not %s", what, names[i], mc_quote(g, strlen(g)), mc_quote(m->v[i], strlen(m->v[i])));
    }
    mc_check(cork_env_get(e, "") == NULL && cork_env_get(e, "X") == NULL && cork_env_get(e, "ABC") == NULL, "get", "%s: a variable nobody set is there", what);
}
static void current_is(const struct map *m, const char *what)
{
    int  i, j, n = 0;
    char  **p, t[VLEN + 20];
    env_is(NULL, m, what);
    for (i = 0; i < NN; i++) n += m->has[i];
    for (p = environ, i = 0; p && *p; p++, i++) {
        for (j = 0; j < NN; j++) if (m->has[j]) { snprintf(t, sizeof t, "%s=%s", names[j], m->v[j]); if (!strcmp(t, *p)) break; }
        mc_check(j < NN, "environ", "%s: the process environment holds %s", what, mc_quote(*p, strnlen(*p, 80)));
    }
    mc_check(i == n, "environ", "%s: the process environment has %d variables, not %d", what, i, n);
}
static uint64_t h_map(uint64_t h, const struct map *m)
{ int  i; for (i = 0; i < NN; i++) h = m->has[i] ? mc_hbuf(h, m->v[i], strlen(m->v[i])) : mc_h(h, 77); return h; }

/* ------------------------------------------------------------ histories */
enum { ADD, ADDF, ADDV, REMOVE, SELF, NKIND };
/* What the library is given doesn't live longer than the call. */
static char  lent[2][VLEN];
static const char *lend(int i, const char *s) { snprintf(lent[i], VLEN, "%s", s); return lent[i]; }
static void take_back(void) { memset(lent, '#', sizeof lent); lent[0][VLEN - 1] = lent[1][VLEN - 1] = 0; }
static void add_v(struct cork_env *e, const char *n, const char *f, ...)
{ va_list  a; va_start(a, f); cork_env_add_vprintf(e, n, f, a); va_end(a); }
static void histories(int root)
{
    struct cork_env  *e[3] = { NULL, NULL, NULL };      /* e[0]: the current one */
    struct map  m[3];
    int  i, d, depth = MC_T(4, 5);
    (void) root;
    memset(m, 0, sizeof m);
    clearenv();
    for (i = 1; i < 3; i++) e[i] = cork_env_new();
    for (d = depth; d > 0; d--) {
        int  per = NN * (NV + 2 + 1 + 1), total = 3 * per + 4, k;
        uint64_t  h;
        k = d == depth ? root : mc_choose(total);
        if (d == depth) { if (root >= total) break; }
        if (k < 3 * per) {
            int  t = k / per, o = k % per, n = o % NN;
            const char  *other;
            char  want[VLEN];
            o /= NN;
            if (o < NV) {
                mc_log("%d: add %s=%s", t, names[n], vals[o]);
                cork_env_add(e[t], lend(0, names[n]), lend(1, vals[o])); m_set(&m[t], n, vals[o]);
            } else if (o == NV) {
                mc_log("%d: add %s by printf", t, names[n]);
                cork_env_add_printf(e[t], lend(0, names[n]), lend(1, "%s-%d-%100s"), "p", 42, "r");
                snprintf(want, VLEN, "%s-%d-%100s", "p", 42, "r"); m_set(&m[t], n, want);
            } else if (o == NV + 1) {
                mc_log("%d: add %s by vprintf", t, names[n]);
                add_v(e[t], lend(0, names[n]), lend(1, "%c%%"), 'q'); m_set(&m[t], n, "q%");
            } else if (o == NV + 2) {
                mc_log("%d: remove %s", t, names[n]);
                cork_env_remove(e[t], lend(0, names[n])); m[t].has[n] = false;
            } else {             /* a variable becomes what another environment's is */
                int  u = (t + 1) % 3;
                other = cork_env_get(e[t], names[(n + 1) % NN]);
                mc_log("%d: add %s=$%s", t, names[n], names[(n + 1) % NN]);
                if (other) { snprintf(want, VLEN, "%s", other); cork_env_add(e[t], lend(0, names[n]), other); m_set(&m[t], n, want); }
                else { other = cork_env_get(e[u], names[n]); if (other) { cork_env_add(e[t], names[n], other); m_set(&m[t], n, other); } }
            }
        } else if (k < 3 * per + 2) {
            i = 1 + k - 3 * per;
            mc_log("%d: clone of the current environment", i);
            cork_env_free(e[i]);
            e[i] = cork_env_clone_current();
            m[i] = m[0];
        } else {
            i = 1 + k - 3 * per - 2;
            mc_log("%d: replaces the current environment", i);
            cork_env_replace_current(e[i]);
            m[0] = m[i];
        }
        mc_step();
        take_back();
        for (i = 1; i < 3; i++) env_is(e[i], &m[i], "an environment");
        current_is(&m[0], "the current environment");
        h = h_map(h_map(h_map(1, &m[0]), &m[1]), &m[2]);
        mc_state(h);
        if (mc_seen(h, d)) break;
    }
    for (i = 1; i < 3; i++) cork_env_free(e[i]);
    current_is(&m[0], "the current environment after the others are gone");
}

/* ------------------------------------------------------------ exec */
static void execs(int root)
{
    struct cork_exec  *x;
    struct map  cur, want;
    const char  *prog = root & 1 ? "/bin/prog" : "prog", *p[MAXP];
    const char  *dir = NULL;
    char  desc[2000], w4[4][20];
    int  i, k, n = 0, ctor = root / 2 % 3, given = root / 6 % 4, runs, rc;
    static const char  *const words[] = { "a", "", "-b c", "prog" };
    struct cork_env  *env = NULL;
    memset(&cur, 0, sizeof cur);
    clearenv();
    setenv("A", "current", 1); m_set(&cur, 0, "current");
    setenv("PATH", "/bin", 1); m_set(&cur, 2, "/bin");
    want = cur;
    if (ctor == 0) { if (given) return; x = cork_exec_new(lend(0, prog)); }
    else if (ctor == 1) {
        p[n++] = prog;
        for (i = 0; i < given; i++) p[n++] = words[mc_choose(3)];
        lend(0, prog);
        for (i = 1; i <= given; i++) strcpy(w4[i], p[i]);
        x = given == 0 ? cork_exec_new_with_params(lent[0], NULL) : given == 1 ? cork_exec_new_with_params(lent[0], w4[1], NULL)
          : given == 2 ? cork_exec_new_with_params(lent[0], w4[1], w4[2], NULL) : cork_exec_new_with_params(lent[0], w4[1], w4[2], w4[3], NULL);
        memset(w4, '#', sizeof w4);
    } else {
        char  *arr[5];
        for (i = 0; i < given; i++) { p[n] = words[mc_choose(4)]; arr[i] = strdup(p[n]); n++; }
        arr[i] = NULL;
        x = cork_exec_new_with_param_array(lend(0, prog), arr);
        for (i = 0; i < given; i++) { memset(arr[i], '#', strlen(arr[i])); free(arr[i]); }
    }
    take_back();
    for (k = mc_choose(MC_T(4, 5)); k > 0; k--) {    /* settings, in any order */
        char  t[40];
        int  w = mc_choose(5);
        if (w < 2) {
            strcpy(t, words[w + 1]);
            mc_log("add_param \"%s\"", t);
            cork_exec_add_param(x, t); p[n++] = words[w + 1]; memset(t, '#', sizeof t);
        } else if (w == 2) {
            mc_log("set_env");
            env = cork_env_new();
            memset(&want, 0, sizeof want);
            cork_env_add(env, "AB", "mine"); m_set(&want, 1, "mine");
            if (mc_choose(2)) { cork_env_add(env, "PATH", ""); m_set(&want, 2, ""); }
            cork_exec_set_env(x, env);
        } else {
            strcpy(t, w == 3 ? "/dir" : "rel");
            mc_log("set_cwd \"%s\"", t);
            cork_exec_set_cwd(x, t); memset(t, '#', sizeof t);
            dir = w == 3 ? "/dir" : "rel";
        }
        mc_step();
    }
    runs = 0;
again:
    /* what can be asked back */
    mc_check(strcmp(cork_exec_program(x), prog) == 0, "program", "the program is %s", cork_exec_program(x));
    mc_check(cork_exec_env(x) == env, "env", "the environment isn't the one that was set");
    mc_check(dir ? cork_exec_cwd(x) && strcmp(cork_exec_cwd(x), dir) == 0 : cork_exec_cwd(x) == NULL, "cwd", "the directory is %s", cork_exec_cwd(x) ? cork_exec_cwd(x) : "NULL");
    mc_check(cork_exec_param_count(x) == (size_t) n, "params", "there are %zu parameters, not %d%s", cork_exec_param_count(x), n, runs ? " (after a failed run)" : "");
    strcpy(desc, prog);
    for (i = 0; i < n; i++) {
        mc_check(strcmp(cork_exec_param(x, i), p[i]) == 0, "params", "parameter %d is \"%s\", not \"%s\"", i, cork_exec_param(x, i), p[i]);
        if (i) strcat(strcat(desc, " "), p[i]);
    }
    mc_check(strcmp(cork_exec_description(x), desc) == 0, "description", "the description is \"%s\", not \"%s\"", cork_exec_description(x), desc);
    memset(&started, 0, sizeof started);
    chdirs = chdirs_after_exec = 0;
    cwd[0] = 0;
    k = mc_choose(dir ? 5 : 3);
    exec_outcome = k == 1 ? ENOENT : k == 2 ? EACCES : 0;
    chdir_outcome = k == 3 ? ENOTDIR : k == 4 ? EINTR : 0;
    cork_error_clear();
    mc_log("run (exec: errno %d, chdir: errno %d)", exec_outcome, chdir_outcome);
    mc_step();
    rc = 99;
    if (setjmp(gone) == 0) {
        rc = cork_exec_run(x);
        mc_check(exec_outcome || chdir_outcome, "returned", "cork_exec_run returns %d without a failure", rc);
        mc_check(rc == -1, "run-result", "a failed run returns %d", rc);
        mc_check(cork_error_code() == (cork_error) (exec_outcome ? exec_outcome : chdir_outcome), "run-error", "a failed run sets error %u", cork_error_code());
    }
    if (chdir_outcome == ENOTDIR || (chdir_outcome == EINTR && rc == -1)) {
        mc_check(started.n == 0, "started", "the program is started in the wrong directory");
    } else {
        char  t[VLEN + 20];
        int  j, c = 0;
        mc_check(started.n >= 1 && (started.n == 1 || rc == -1), "started", "the program is started %d times", started.n);
        mc_check(strcmp(started.program, prog) == 0 && started.search, "program", "%s is started%s", started.program, started.search ? "" : " without looking in PATH");
        mc_check(started.argc == n, "params", "%d parameters are passed, not %d", started.argc, n);
        for (i = 0; i < n; i++) mc_check(strcmp(started.arg[i], p[i]) == 0, "params", "parameter %d is passed as \"%s\", not \"%s\"", i, started.arg[i], p[i]);
        for (i = 0; i < NN; i++) c += want.has[i];
        mc_check(started.envc == c, "env", "%d variables are passed, not %d", started.envc, c);
        for (i = 0; i < c; i++) {
            for (j = 0; j < NN; j++) if (want.has[j]) { snprintf(t, sizeof t, "%s=%s", names[j], want.v[j]); if (!strcmp(t, started.env[i])) break; }
            mc_check(j < NN, "env", "%s is passed", started.env[i]);
        }
        mc_check(strcmp(cwd, dir ? dir : "") == 0 && (dir || chdirs == 0), "cwd", "the program is started in %s, not %s", cwd[0] ? cwd : "the caller's directory", dir ? dir : "the caller's");
        mc_check(chdirs_after_exec == 0, "cwd", "the directory is changed late");
    }
    mc_state(mc_h(mc_h(mc_hbuf(root, desc, strlen(desc)), h_map(k, &want)), dir ? dir[0] : 0));
    /* a run that failed can be tried again, with more parameters */
    if (rc == -1 && runs < 1) {
        runs++;
        if (mc_choose(2)) { cork_exec_add_param(x, "more"); p[n++] = "more"; }
        clearenv();
        if (env == NULL) { setenv("A", "current", 1); setenv("PATH", "/bin", 1); }
        goto again;
    }
    cork_exec_free(x);
}

/* ------------------------------------------------------------ many variables, many parameters */
enum { MV = 700 };
static char  bigv[3][MV][24];        /* value of variable i in environment e: empty for none */
static void bname(char *b, int i) { sprintf(b, i % 7 == 3 ? "LONG_VARIABLE_NAME_%d_%d" : "V%d", i, i); }
static void bset(struct cork_env *e, int w, int i, int gen)
{
    char  n[60], v[24];
    bname(n, i); sprintf(v, "g%d-%d", gen, i * 31);
    strcpy(bigv[w][i], v);
    if (i % 3 == 1) cork_env_add_printf(e, n, "g%d-%d", gen, i * 31); else cork_env_add(e, n, v);
    memset(n, '#', sizeof n); memset(v, '#', sizeof v);
}
static void bdel(struct cork_env *e, int w, int i) { char  n[60]; bname(n, i); cork_env_remove(e, n); bigv[w][i][0] = 0; memset(n, '#', sizeof n); }
static void bcheck(struct cork_env *e, int w, int nv, const char *what)
{
    char  n[60];
    int  i, k = 0;
    char  **p;
    for (i = 0; i < nv; i++) {
        const char  *g;
        bname(n, i);
        g = cork_env_get(e, n);
        mc_check((g != NULL) == (bigv[w][i][0] != 0), "get", "%s: variable %d of %d is %s", what, i, nv, g ? "there" : "missing");
        mc_check(!g || strcmp(g, bigv[w][i]) == 0, "value", "%s: variable %d of %d is %s, not %s", what, i, nv, g, bigv[w][i]);
        k += bigv[w][i][0] != 0;
    }
    if (e != NULL) return;
    for (p = environ, i = 0; p && *p; p++) i++;
    mc_check(i == k, "environ", "%s: the process environment has %d variables, not %d", what, i, k);
}
static void many_vars(int r)
{
    static const int  counts[] = { 5, 17, 47, 48, 49, 100, 129, 300, MV };
    struct cork_env  *e[3] = { NULL, cork_env_new(), cork_env_new() };
    int  nv = counts[mc_choose(9)], i, w = r % 2, how = r / 2, t;
    memset(bigv, 0, sizeof bigv);
    clearenv();
    for (i = 0; i < nv; i++) bset(e[w], w, how == 1 ? nv - 1 - i : how == 2 ? i * 7 % nv : i, 1);
    if (how == 2) for (i = 0; i < nv; i++) bset(e[w], w, i, 1);
    bcheck(e[w], w, nv, "after adding");
    for (i = 0; i < nv; i++) if (i % 2 == how % 2) bdel(e[w], w, i);
    bcheck(e[w], w, nv, "after removing");
    for (i = 0; i < nv; i++) if (i % 3 == 0) bset(e[w], w, i, 2);
    bcheck(e[w], w, nv, "after replacing");
    for (i = 0; i < nv; i += 5) bset(e[2], 2, i, 3);
    if (w == 0) {       /* the current one is cloned, then changed */
        cork_env_free(e[1]);
        e[1] = cork_env_clone_current();
        memcpy(bigv[1], bigv[0], sizeof bigv[0]);
        for (i = 0; i < nv; i += 4) bdel(NULL, 0, i);
    }
    bcheck(e[1], 1, nv, "the other"); bcheck(NULL, 0, nv, "the current"); bcheck(e[2], 2, nv, "the third");
    for (t = 2; t >= 1; t--) {
        cork_env_replace_current(e[t]);
        memcpy(bigv[0], bigv[t], sizeof bigv[0]);
        for (i = 0; i < 3; i++) bcheck(e[i], i, nv, "after replacing the current one");
        for (i = 0; i < nv; i += 9) bset(NULL, 0, i, 4);
        for (i = 0; i < 3; i++) bcheck(e[i], i, nv, "after changing the current one");
    }
    cork_env_free(e[1]); cork_env_free(e[2]);
    bcheck(NULL, 0, nv, "after the others are gone");
    mc_steps(nv * 3);
    mc_state(mc_h(r, nv));
}
static void many_params(int r)
{
    struct cork_exec  *x;
    char  *arr[MAXP], t[40], desc[6000] = "prog";
    int  n = 0, total, first, i;
    static const int  counts[] = { 4, 7, 8, 9, 15, 16, 17, 33, 64, 100 };
    total = counts[mc_choose(10)];
    first = r ? counts[mc_choose(10)] : 0;
    if (first > total) return;
    clearenv();
    for (i = 0; i < first; i++) { sprintf(t, "p%d%s", i, i % 4 == 1 ? " with a longer text" : ""); arr[i] = strdup(t); n++; }
    arr[n] = NULL;
    x = r ? cork_exec_new_with_param_array("prog", arr) : cork_exec_new("prog");
    for (i = 0; i < first; i++) { memset(arr[i], '#', strlen(arr[i])); free(arr[i]); }
    for (; n < total; n++) { sprintf(t, "p%d%s", n, n % 4 == 1 ? " with a longer text" : ""); cork_exec_add_param(x, t); memset(t, '#', sizeof t); }
    mc_check(cork_exec_param_count(x) == (size_t) n, "params", "there are %zu parameters, not %d", cork_exec_param_count(x), n);
    memset(&started, 0, sizeof started);
    exec_outcome = chdir_outcome = 0;
    if (setjmp(gone) == 0) { cork_exec_run(x); mc_fail("returned", "cork_exec_run returns without a failure"); }
    mc_check(started.n == 1 && started.argc == n, "params", "%d parameters are passed, not %d", started.argc, n);
    for (i = 0; i < n; i++) {
        sprintf(t, "p%d%s", i, i % 4 == 1 ? " with a longer text" : "");
        mc_check(strcmp(started.arg[i], t) == 0 && strcmp(cork_exec_param(x, i), t) == 0, "params", "parameter %d is passed as \"%s\", not \"%s\"", i, started.arg[i], t);
        if (i) sprintf(desc + strlen(desc), " %s", t);
    }
    mc_check(strcmp(cork_exec_description(x), desc) == 0, "description", "the description is \"%s\", not \"%s\"", cork_exec_description(x), desc);
    mc_steps(n);
    mc_state(mc_h(total, first));
    cork_exec_free(x);
}

/* ------------------------------------------------------------ entries that aren't variables */
static void odd_entries(void)
{
    static char  *all[] = { "A=1", "NOTHING", "", "AB==", "PATH" };
    char  *block[6], keep[5][20], **saved = environ;
    struct cork_env  *e;
    struct map  m;
    int  i, n = 0, k;
    memset(&m, 0, sizeof m);
    clearenv();
    saved = environ;
    for (i = 0; i < 5; i++) {       /* each at most once, in any order */
        k = mc_choose(6);
        if (k == 5) break;
        for (int j = 0; j < n; j++) if (!strcmp(keep[j], all[k])) return;
        mc_log("entry \"%s\"", all[k]);
        strcpy(keep[n], all[k]); block[n] = keep[n]; n++;
        if (k == 0) m_set(&m, 0, "1");
        if (k == 3) m_set(&m, 1, "=");
    }
    block[n] = NULL;
    environ = block;
    e = cork_env_clone_current();
    environ = saved;
    mc_step();
    env_is(e, &m, "the clone");
    mc_check(cork_env_get(e, "NOTHING") == NULL, "get", "an entry without a value becomes a variable");
    cork_env_replace_current(e);
    current_is(&m, "the current environment");
    cork_env_free(e);
    current_is(&m, "the current environment after the clone is gone");
    mc_state(h_map(n, &m));
}

static bool is_exec(void) { return strcmp(mc_arg, "exec") == 0; }
#define NHIST (3 * NN * (NV + 4) + 4)
int mc_roots(void) { return is_exec() ? 24 + 2 : NHIST + 7; }
void mc_root_name(int r, char *b, size_t n) { snprintf(b, n, !is_exec() && r == NHIST + 6 ? "odd entries %d" : r >= (is_exec() ? 24 : NHIST) ? "large numbers %d" : is_exec() ? "exec %d" : "first operation %d", r); }
void mc_init(void) { track_install(); mc_unpruned = 2; track_prime(); }
void mc_run(int r)
{
    size_t  base;
    cork_error_set_printf(CORK_PARSE_ERROR, "x");
    cork_error_clear();
    base = track_live();
    mc_crash_key("crash");
    if (is_exec()) { if (r < 24) execs(r); else many_params(r - 24); }
    else { if (r < NHIST) histories(r); else if (r == NHIST + 6) odd_entries(); else many_vars(r - NHIST); }
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
}
