#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXC       20000
#define MAXW       32
#define MAXCOVER   192
#define EX_FAIL    99
#define EX_INTERNAL 98

struct slot {
    volatile int  root;
    volatile uint64_t  execs, steps, evals, seen_prunes;
    volatile uint64_t  heartbeat;
    volatile int  nchoices;
    volatile int  maxchoices;
    int  exhausted;          /* root completely explored */
    int  failed;
    int  internal;
    char  key[512];
    char  crash_key[512];
    char  msg[4096];
    uint16_t  choice[MAXC];
    uint16_t  arity[MAXC];
    int  sn;                 /* a sample execution (the 2^k-th) */
    uint16_t  schoice[MAXC];
    uint16_t  sarity[MAXC];
};

struct shared {
    struct slot  slot[MAXW + 2];
    char  cover_name[MAXCOVER][64];
    volatile uint64_t  cover[MAXCOVER];
    volatile int  ncover;
    volatile int  cover_lock;
    volatile uint64_t  nstates;
    volatile int  states_full;
};

static struct shared  *sh;
static struct slot  *S;
static uint64_t  *states;        /* shared open-addressing set */
static uint64_t  states_cap;

int  mc_verbose = 0;
int  mc_thorough = 0;
const char  *mc_arg = "";
static FILE  *logf = NULL;
static int  replaying = 0;
static int  budget;
static int  fixed_len;           /* choices [0,fixed_len) are imposed */
static int  pos;
static pid_t  explorer_pid;

__attribute__((weak)) void mc_init(void) {}
__attribute__((weak)) void mc_root_name(int root, char *buf, size_t n)
{ snprintf(buf, n, "root %d", root); }

bool mc_replaying(void) { return replaying; }
uint64_t mc_exec_index(void) { return S->execs; }

void mc_log_(const char *fmt, ...)
{
    va_list  ap;
    if (logf == NULL) return;
    va_start(ap, fmt);
    vfprintf(logf, fmt, ap);
    va_end(ap);
    fputc('\n', logf);
    fflush(logf);
}

static void set_str(char *d, size_t n, const char *fmt, va_list ap)
{ vsnprintf(d, n, fmt, ap); }

void mc_fail(const char *key, const char *fmt, ...)
{
    va_list  ap;
    va_start(ap, fmt);
    if (!S->failed) {
        snprintf(S->key, sizeof S->key, "%s", key);
        set_str(S->msg, sizeof S->msg, fmt, ap);
        S->failed = 1;
    }
    va_end(ap);
    mc_log("VIOLATED [%s]: %s", S->key, S->msg);
    _exit(EX_FAIL);
}

void mc_internal(const char *fmt, ...)
{
    va_list  ap;
    va_start(ap, fmt);
    set_str(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    S->internal = 1;
    mc_log("INTERNAL: %s", S->msg);
    _exit(EX_INTERNAL);
}

void mc_crash_key(const char *fmt, ...)
{
    va_list  ap;
    va_start(ap, fmt);
    set_str(S->crash_key, sizeof S->crash_key, fmt, ap);
    va_end(ap);
}

void mc_step(void) { S->steps++; S->heartbeat++; }
void mc_steps(uint64_t n) { S->steps += n; S->heartbeat++; }
void mc_eval(uint64_t n) { S->evals += n; S->heartbeat++; }
void mc_set_budget(int k) { budget = k; }
int mc_budget(void) { return budget; }
void mc_charge(int k) { budget -= k; }

int mc_choose(int n)
{
    int  c;
    if (n <= 0) mc_internal("mc_choose(%d)", n);
    if (pos >= MAXC) mc_fail("horizon", "execution exceeded %d choices", MAXC);
    if (pos < fixed_len) {
        c = S->choice[pos];
        if (S->arity[pos] != n && S->arity[pos] != 0) {
            mc_internal("divergence while replaying a prefix: choice %d had arity %d, now %d",
                        pos, S->arity[pos], n);
        }
        if (c >= n) {
            mc_internal("replayed choice %d out of range (%d of %d)", pos, c, n);
        }
    } else {
        c = 0;
        S->choice[pos] = 0;
    }
    S->arity[pos] = n;
    pos++;
    S->nchoices = pos;
    return c;
}

int mc_choose_dev(int n)
{
    int  c;
    if (budget <= 0 || n <= 1) return 0;
    c = mc_choose(n);
    if (c != 0) budget--;
    return c;
}

/* ---- states ---- */
void mc_state(uint64_t h)
{
    uint64_t  i;
    if (h == 0) h = 1;
    if (states == NULL) return;
    i = h & (states_cap - 1);
    for (;;) {
        uint64_t  v = __atomic_load_n(&states[i], __ATOMIC_RELAXED);
        if (v == h) return;
        if (v == 0) {
            uint64_t  z = 0;
            if (sh->nstates > states_cap / 4 * 3) { sh->states_full = 1; return; }
            if (__atomic_compare_exchange_n(&states[i], &z, h, 0,
                                            __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&sh->nstates, 1, __ATOMIC_RELAXED);
                return;
            }
            if (z == h) return;
        }
        i = (i + 1) & (states_cap - 1);
    }
}

static struct { uint64_t h; int rem; }  *seen;
static uint64_t  seen_cap, seen_n;
static int  seen_calls;
int  mc_unpruned = 0;

bool mc_fresh(void) { return replaying || pos >= fixed_len; }
bool mc_seen(uint64_t h, int remaining)
{
    uint64_t  i;
    mc_state(h);
    if (h == 0) h = 1;
    seen_calls++;
    if (seen_n * 4 >= seen_cap * 3) {
        uint64_t  ncap = seen_cap ? seen_cap * 2 : 4096, j, k;
        void  *old = seen;
        typeof(*seen)  *n = calloc(ncap, sizeof *seen), *o = old;
        for (j = 0; j < seen_cap; j++) {
            if (o[j].h == 0) continue;
            for (k = o[j].h & (ncap - 1); n[k].h; k = (k + 1) & (ncap - 1)) ;
            n[k].h = o[j].h; n[k].rem = o[j].rem;
        }
        free(old);
        seen = (void *) n;
        seen_cap = ncap;
    }
    for (i = h & (seen_cap - 1); seen[i].h != 0; i = (i + 1) & (seen_cap - 1)) {
        if (seen[i].h == h) {
            /* While a prefix is replayed the states on it are revisited: the
             * subtree below is still being explored, never prune there. */
            if (pos < fixed_len) return false;
            if (seen[i].rem >= remaining) {
                if (seen_calls <= mc_unpruned) return false;
                if (replaying) return false;
                S->seen_prunes++;
                return true;
            }
            seen[i].rem = remaining;
            return false;
        }
    }
    seen[i].h = h;
    seen[i].rem = remaining;
    seen_n++;
    return false;
}

void mc_cover(const char *name)
{
    static struct { const char *p; int i; }  cache[256];
    unsigned  hsh = ((uintptr_t) name >> 3) & 255;
    int  i;
    if (cache[hsh].p == name) { __atomic_fetch_add(&sh->cover[cache[hsh].i], 1, __ATOMIC_RELAXED); return; }
    while (__atomic_exchange_n(&sh->cover_lock, 1, __ATOMIC_ACQUIRE)) usleep(1);
    for (i = 0; i < sh->ncover; i++)
        if (strcmp(sh->cover_name[i], name) == 0) break;
    if (i == sh->ncover) {
        if (i == MAXCOVER) { __atomic_store_n(&sh->cover_lock, 0, __ATOMIC_RELEASE); return; }
        snprintf(sh->cover_name[i], 64, "%s", name);
        sh->ncover++;
    }
    __atomic_store_n(&sh->cover_lock, 0, __ATOMIC_RELEASE);
    cache[hsh].p = name;
    cache[hsh].i = i;
    __atomic_fetch_add(&sh->cover[i], 1, __ATOMIC_RELAXED);
}

const char *mc_quote(const void *p, size_t n)
{
    static char  bufs[4][1200];
    static int  which;
    char  *b = bufs[which++ & 3];
    const unsigned char  *s = p;
    size_t  i, o = 0;
    b[o++] = '"';
    for (i = 0; i < n && o < 1150; i++) {
        if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') b[o++] = s[i];
        else o += sprintf(b + o, "\\x%02x", s[i]);
    }
    if (i < n) o += sprintf(b + o, "...(%zu)", n);
    b[o++] = '"';
    b[o] = 0;
    return b;
}

void mc_silence(void)
{
    int  fd = open("/dev/null", O_WRONLY);
    fflush(NULL);
    dup2(fd, 1);
    if (!replaying) dup2(fd, 2);
    if (fd > 2) close(fd);
}

static int in_child(void (*fn)(void *), void *arg, bool raw)
{
    int  st;
    pid_t  pid = fork(), r;
    if (pid < 0) mc_internal("fork: %s", strerror(errno));
    if (pid == 0) {
        fn(arg);
        _exit(0);
    }
    while ((r = waitpid(pid, &st, 0)) < 0 && errno == EINTR) ;
    if (r != pid) mc_internal("waitpid: %s", strerror(errno));
    S->heartbeat++;
    pos = S->nchoices;           /* the child may have made choices */
    if (WIFEXITED(st) && WEXITSTATUS(st) == EX_INTERNAL && S->internal) _exit(EX_INTERNAL);
    if (WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL && S->failed) _exit(EX_FAIL);
    if (!raw && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        char  k[600];
        snprintf(k, sizeof k, "crash%s%s", S->crash_key[0] ? ":" : "", S->crash_key);
        mc_fail(k, "the process running the code under test ended abnormally (status 0x%x)", st);
    }
    return st;
}
int mc_in_child(void (*fn)(void *), void *arg) { return in_child(fn, arg, false); }
int mc_in_child_raw(void (*fn)(void *), void *arg) { return in_child(fn, arg, true); }

/* ---- exploring one root in the current process ---- */
static bool next_prefix(void)
{
    int  n = S->nchoices;
    while (n > 0 && S->choice[n - 1] + 1 >= S->arity[n - 1]) n--;
    if (n == 0) return false;
    S->choice[n - 1]++;
    fixed_len = n;
    return true;
}

/* What uninitialised locals hold must not depend on what ran before, or a violation that comes
 * from reading one wouldn't replay. */
static void __attribute__((noinline)) poison_stack(void)
{
    volatile unsigned char  area[12288];
    memset((void *) area, 0x55, sizeof area);
    __asm__ volatile ("" : : "r" (area) : "memory");
}

static void run_one(int root)
{
    pos = 0;
    seen_calls = 0;
    S->nchoices = 0;
    budget = 1 << 30;
    S->crash_key[0] = 0;
    poison_stack();
    mc_run(root);
    if (pos < fixed_len)
        mc_internal("divergence: execution used %d of %d imposed choices", pos, fixed_len);
    S->execs++;
    if ((S->execs & (S->execs - 1)) == 0) {
        S->sn = pos;
        memcpy(S->schoice, S->choice, pos * sizeof(uint16_t));
        memcpy(S->sarity, S->arity, pos * sizeof(uint16_t));
    }
    S->heartbeat++;
    if (pos > S->maxchoices) S->maxchoices = pos;
}

static void explore(int root, bool resume, uint64_t stop_after)
{
    mc_init();
    fixed_len = 0;
    if (resume) {
        if (!next_prefix()) { S->exhausted = 1; return; }
    }
    for (;;) {
        run_one(root);
        if (stop_after && S->execs >= stop_after) return;
        if (!next_prefix()) break;
    }
    S->exhausted = 1;
}

/* ---- supervisor ---- */
static double now(void)
{
    struct timespec  t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static char  known[256][512];
static int  nknown;
static int  known_hits[256];
static char  known_msg[256][300];

static void load_known(const char *path, const char *prop)
{
    FILE  *f = fopen(path, "r");
    char  line[2048];
    if (f == NULL) return;
    while (fgets(line, sizeof line, f)) {
        char  p[64], k[512];
        if (sscanf(line, "known: property=%63s key=%511s", p, k) == 2
            && strcmp(p, prop) == 0 && nknown < 256)
            strcpy(known[nknown++], k);
    }
    fclose(f);
}

/* keys never contain blanks */
static void fix_key(char *k)
{
    for (; *k; k++) if (*k == ' ' || *k == '\n' || *k == '\t') *k = '_';
}

static void write_trace(FILE *f, struct slot *s)
{
    int  i, n = s->nchoices;
    fprintf(f, "root=%d\nexecs=%llu\nchoices=", s->root, (unsigned long long) s->execs);
    for (i = 0; i < n; i++) fprintf(f, "%s%d/%d", i ? " " : "", s->choice[i], s->arity[i]);
    fprintf(f, "\n");
}

static int open_null(void) { return open("/dev/null", O_RDWR); }

static void child_common(int slot_no)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int  fd;
    S = &sh->slot[slot_no];
    explorer_pid = getpid();
    setpgid(0, 0);
    fd = open_null();
    dup2(fd, 0);
    if (!replaying) { dup2(fd, 2); dup2(fd, 1); }
    if (fd > 2) close(fd);
}

/* Replays the trace in slot `from` (a single execution, or the whole root up to the
 * failing execution) with logging into `out`.  Returns 1 if the violation recurs. */
static int replay_trace(struct slot *from, const char *out, double limit, bool whole_root,
                        bool log)
{
    struct slot  *d = &sh->slot[MAXW + 1];
    pid_t  pid;
    int  st = 0, n = from->nchoices, hung = 0;
    uint64_t  execs = from->execs;
    double  t0 = now();
    memset((void *) d, 0, sizeof *d);
    d->root = from->root;
    if (!whole_root) {
        memcpy(d->choice, from->choice, sizeof d->choice);
        memcpy(d->arity, from->arity, sizeof d->arity);
        d->nchoices = n;
    }
    fflush(NULL);
    pid = fork();
    if (pid == 0) {
        int  fd = open(out, O_WRONLY | O_CREAT | O_APPEND, 0644);
        replaying = 1;
        child_common(MAXW + 1);
        dup2(fd, 2);
        dup2(fd, 1);
        logf = fdopen(fd, "a");
        setvbuf(logf, NULL, _IONBF, 0);
        if (log && !whole_root) mc_verbose = 1;
        mc_init();
        if (whole_root) {
            replaying = 0;      /* exact exploration semantics (pruning) */
            fixed_len = 0;
            for (;;) {
                if (d->execs == execs && log) mc_verbose = 1;
                run_one(d->root);
                if (d->execs > execs) _exit(0);
                if (!next_prefix()) _exit(0);
            }
        }
        fixed_len = n;
        run_one(d->root);
        _exit(0);
    }
    for (;;) {
        pid_t  r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = 1;
            break;
        }
        usleep(2000);
    }
    kill(-pid, SIGKILL);
    if (hung) {
        if (!d->failed) {
            d->failed = 1;
            snprintf(d->key, sizeof d->key, "hang%s%s", d->crash_key[0] ? ":" : "", d->crash_key);
            snprintf(d->msg, sizeof d->msg, "execution did not finish within %.0f s", limit);
        }
        return 1;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == EX_INTERNAL) return -1;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == EX_FAIL && d->failed)) {
        d->failed = 1;
        snprintf(d->key, sizeof d->key, "crash%s%s", d->crash_key[0] ? ":" : "", d->crash_key);
        snprintf(d->msg, sizeof d->msg, "the code under test crashed or aborted (%s %d)",
                 WIFSIGNALED(st) ? "signal" : "exit status",
                 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
    return 1;
}

struct wk { pid_t pid; int root; uint64_t hb; double hb_t; };

static void json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char  c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void sample(FILE *js, const char *dir, int root, struct slot *from, int *n)
{
    char  path[512], *buf;
    FILE  *f;
    size_t  len;
    snprintf(path, sizeof path, "%s/sample.%d", dir, (int) getpid());
    unlink(path);
    if (replay_trace(from, path, 60, false, true) != 0) { unlink(path); return; }
    f = fopen(path, "r");
    if (f == NULL) return;
    buf = calloc(1, 2200);
    len = fread(buf, 1, 2000, f);
    if (len == 2000) strcat(buf, " ...");
    fclose(f);
    unlink(path);
    {
        char  rn[256], *t = malloc(strlen(buf) + 600), *p;
        mc_root_name(root, rn, sizeof rn);
        sprintf(t, "[%s] %s", rn, buf);
        for (p = t; *p; p++) if (*p == '\n') *p = ';';
        fprintf(js, "%s", (*n)++ ? ", " : "");
        json_str(js, t);
        free(t);
    }
    free(buf);
}

int main(int argc, char **argv)
{
    const char  *out = NULL, *property = "C00", *knownf = "", *rdir = ".", *replay = NULL;
    int  workers = 8, i, nroots, next_root = 0, running = 0;
    int  nviol = 0, ninternal = 0, capped = 0;
    double  limit = 600, hang = 30, t0 = now(), hang_replay = 90;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct wk  w[MAXW];
    uint64_t  execs = 0, steps = 0, evals = 0, prunes = 0;
    int  maxdepth = 0, roots_done = 0;
    char  vpath[1024] = "", vkey[512] = "", vmsg[4096] = "", imsg[4096] = "";
    struct { int root; struct slot s; }  *smp = NULL;
    int  nsmp = 0;

    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--property")) property = argv[++i];
        else if (!strcmp(argv[i], "--known")) knownf = argv[++i];
        else if (!strcmp(argv[i], "--replaydir")) rdir = argv[++i];
        else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
        else if (!strcmp(argv[i], "--hang")) { hang = atof(argv[++i]); hang_replay = hang * 3; }
        else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
        else if (!strcmp(argv[i], "--arg")) mc_arg = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (workers > MAXW) workers = MAXW;
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    states_cap = mc_thorough ? 1ULL << 26 : 1ULL << 23;
    states = mmap(NULL, states_cap * 8, PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S = &sh->slot[MAXW];
    load_known(knownf, property);

    if (replay != NULL) {
        /* file: a root= line and a choices= line (first occurrences) */
        FILE  *f = fopen(replay, "r");
        char  *line = NULL;
        size_t  cap = 0;
        bool  whole = false;
        struct slot  *s = &sh->slot[MAXW];
        if (f == NULL) { perror(replay); return 2; }
        while (getline(&line, &cap, f) > 0) {
            if (!strncmp(line, "root=", 5)) s->root = atoi(line + 5);
            else if (!strncmp(line, "execs=", 6)) s->execs = strtoull(line + 6, NULL, 10);
            else if (!strncmp(line, "whole_root=1", 12)) whole = true;
            else if (!strncmp(line, "choices=", 8)) {
                char  *p = line + 8;
                int  c, a, k;
                while (sscanf(p, "%d/%d%n", &c, &a, &k) == 2) {
                    s->choice[s->nchoices] = c;
                    s->arity[s->nchoices++] = a;
                    p += k;
                }
                break;
            }
        }
        i = replay_trace(s, "/dev/stdout", hang_replay, whole, true);
        printf("replay: %s %s\n", i == 1 ? "VIOLATED" : i == 0 ? "ok" : "internal error",
               i ? sh->slot[MAXW + 1].msg : "");
        return i == 1 ? 1 : i == 0 ? 0 : 2;
    }

    nroots = mc_roots();
    smp = calloc(4, sizeof *smp);
    memset(w, 0, sizeof w);
    while ((next_root < nroots && nviol == 0 && !ninternal && !capped) || running > 0) {
        /* start workers */
        for (i = 0; i < workers; i++) {
            bool  resume = false;
            if (w[i].pid != 0) continue;
            if (w[i].root == -2) {        /* resume after a known finding */
                resume = true;
            } else {
                if (next_root >= nroots || nviol || ninternal || capped) continue;
                memset((void *) &sh->slot[i], 0, sizeof sh->slot[i]);
                sh->slot[i].root = next_root++;
            }
            if (nviol || ninternal || capped) { w[i].root = 0; continue; }
            sh->slot[i].failed = 0;
            fflush(NULL);
            w[i].pid = fork();
            if (w[i].pid == 0) {
                child_common(i);
                explore(S->root, resume, 0);
                fflush(NULL);
                _exit(0);
            }
            w[i].root = sh->slot[i].root;
            w[i].hb = 0;
            w[i].hb_t = now();
            running++;
        }
        usleep(1000);
        for (i = 0; i < workers; i++) {
            struct slot  *s = &sh->slot[i];
            int  st, hung = 0;
            pid_t  r;
            if (w[i].pid == 0) continue;
            r = waitpid(w[i].pid, &st, WNOHANG);
            if (r == 0) {
                uint64_t  hb = s->heartbeat + s->execs;
                if (hb != w[i].hb) { w[i].hb = hb; w[i].hb_t = now(); }
                if (nviol || ninternal || now() - t0 > limit) {
                    if (!nviol && !ninternal) capped = 1;
                    kill(-w[i].pid, SIGKILL);
                    kill(w[i].pid, SIGKILL);
                    waitpid(w[i].pid, &st, 0);
                    w[i].pid = 0;
                    w[i].root = 0;
                    running--;
                    execs += s->execs; steps += s->steps; evals += s->evals; prunes += s->seen_prunes;
                    continue;
                }
                if (now() - w[i].hb_t < hang) continue;
                kill(-w[i].pid, SIGKILL);
                kill(w[i].pid, SIGKILL);
                waitpid(w[i].pid, &st, 0);
                hung = 1;
            }
            kill(-w[i].pid, SIGKILL);     /* stragglers of this worker's group */
            w[i].pid = 0;
            running--;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->exhausted) {
                execs += s->execs; steps += s->steps; evals += s->evals; prunes += s->seen_prunes;
                if (s->maxchoices > maxdepth) maxdepth = s->maxchoices;
                roots_done++;
                if (getenv("MC_VERBOSE")) fprintf(stderr, "root %d done at %.1f: %llu executions\n", w[i].root, now() - t0, (unsigned long long) s->execs);
                w[i].root = 0;
                if (nsmp < 3) {
                    smp[nsmp].root = s->root;
                    smp[nsmp].s = *s;
                    memcpy(smp[nsmp].s.choice, s->schoice, sizeof s->choice);
                    memcpy(smp[nsmp].s.arity, s->sarity, sizeof s->arity);
                    smp[nsmp].s.nchoices = s->sn;
                    nsmp++;
                }
                continue;
            }
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == EX_INTERNAL) {
                ninternal++;
                snprintf(imsg, sizeof imsg, "%s (root %d)", s->msg, s->root);
                write_trace(stderr, s);
                continue;
            }
            /* a violation: replay it alone before believing it */
            {
                char  path[900], tmp[960];
                bool  whole = false;
                int  rr, k;
                FILE  *f;
                struct slot  *d = &sh->slot[MAXW + 1];
                snprintf(path, sizeof path, "%s/%s-r%d-%llu.txt", rdir, property, s->root,
                         (unsigned long long) s->execs);
                snprintf(tmp, sizeof tmp, "%s.log", path);
                unlink(tmp);
                rr = replay_trace(s, tmp, hang_replay, false, true);
                if (rr != 1 && !hung) {
                    whole = true;
                    unlink(tmp);
                    rr = replay_trace(s, tmp, 300, true, true);
                }
                if (rr != 1) {
                    unlink(tmp);
                    if (hung) {   /* it was only slow: go on after it */
                        w[i].root = -2;
                        s->execs++;
                        continue;
                    }
                    ninternal++;
                    snprintf(imsg, sizeof imsg,
                             "violation did not replay (root %d, exec %llu): [%s] %s", s->root,
                             (unsigned long long) s->execs, s->key, s->msg);
                    write_trace(stderr, s);
                    continue;
                }
                fix_key(d->key);
                for (k = 0; k < nknown; k++) if (!strcmp(known[k], d->key)) break;
                if (k < nknown) {
                    known_hits[k]++;
                    snprintf(known_msg[k], sizeof known_msg[k], "%s", d->msg);
                    unlink(tmp);
                    w[i].root = -2;
                    s->execs++;
                    continue;
                }
                f = fopen(path, "w");
                if (f) {
                    char  rn[256], b[4096];
                    size_t  n;
                    FILE  *g = fopen(tmp, "r");
                    mc_root_name(s->root, rn, sizeof rn);
                    fprintf(f, "property=%s\nharness=%s\narg=%s\ntier=%s\nkey=%s\nmessage=%s\nroot_name=%s\n",
                            property, mc_harness_name, mc_arg, mc_thorough ? "thorough" : "quick",
                            d->key, d->msg, rn);
                    if (whole) fprintf(f, "whole_root=1\n");
                    write_trace(f, s);
                    fprintf(f, "--- replayed execution ---\n");
                    if (g) {
                        size_t  total = 0;
                        while ((n = fread(b, 1, sizeof b, g)) > 0 && total < 200000) {
                            fwrite(b, 1, n, f);
                            total += n;
                        }
                        fclose(g);
                    }
                    fclose(f);
                }
                unlink(tmp);
                nviol++;
                execs += s->execs; steps += s->steps; evals += s->evals;
                strcpy(vpath, path);
                snprintf(vkey, sizeof vkey, "%s", d->key);
                snprintf(vmsg, sizeof vmsg, "%s", d->msg);
            }
        }
    }

    if (out) {
        FILE  *js = fopen(out, "w");
        int  n = 0;
        if (js == NULL) { perror(out); return 2; }
        fprintf(js, "{\"executions\": %llu, \"transitions\": %llu, \"evaluations\": %llu, "
                "\"states\": %llu, \"states_saturated\": %s, \"pruned_revisits\": %llu, "
                "\"roots\": %d, \"roots_completed\": %d, \"max_choices\": %d, \"capped\": %s, ",
                (unsigned long long) execs, (unsigned long long) steps,
                (unsigned long long) evals, (unsigned long long) sh->nstates,
                sh->states_full ? "true" : "false", (unsigned long long) prunes,
                nroots, roots_done, maxdepth, capped ? "true" : "false");
        fprintf(js, "\"outcomes\": {");
        for (i = 0; i < sh->ncover; i++) {
            fprintf(js, "%s", i ? ", " : "");
            json_str(js, sh->cover_name[i]);
            fprintf(js, ": %llu", (unsigned long long) sh->cover[i]);
        }
        fprintf(js, "}, \"known_hits\": [");
        for (i = 0; i < nknown; i++) {
            if (!known_hits[i]) continue;
            fprintf(js, "%s{\"key\": ", n++ ? ", " : "");
            json_str(js, known[i]);
            fprintf(js, ", \"hits\": %d, \"message\": ", known_hits[i]);
            json_str(js, known_msg[i]);
            fprintf(js, "}");
        }
        n = 0;
        fprintf(js, "], \"samples\": [");
        if (nviol == 0 && ninternal == 0)
            for (i = 0; i < nsmp; i++) sample(js, rdir, smp[i].root, &smp[i].s, &n);
        fprintf(js, "], \"violations\": %d, \"violation_path\": ", nviol);
        json_str(js, vpath);
        fprintf(js, ", \"violation_key\": ");
        json_str(js, vkey);
        fprintf(js, ", \"violation_message\": ");
        json_str(js, vmsg);
        fprintf(js, ", \"internal\": ");
        json_str(js, imsg);
        fprintf(js, ", \"wall\": %.3f}\n", now() - t0);
        fclose(js);
    }
    if (nviol) return 1;
    if (ninternal) { fprintf(stderr, "INTERNAL: %s\n", imsg); return 2; }
    return 0;
}
