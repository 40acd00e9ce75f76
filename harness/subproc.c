/* C29, C30: subprocesses.  The children are real processes made by the library's own fork(); each
 * follows a script, one operation at a time, when the parent's scheduler says so.  The parent's
 * system calls are the points where the scheduler can let a child go on, and where a call can be
 * interrupted, be short or fail; a call that would block is noticed before it does. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/os.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "mc.h"
#include "track.h"
#include "scratch.h"
const char *mc_harness_name = HARNESS_NAME;
enum { HIGH = 200, PIPESZ = 4096 };

/* ------------------------------------------------------------ children */
struct ctl {
    int  cmd, ack, arrived, dying, progress;
    size_t  written[2], nread, ended;   /* ended: stdin ends after this many bytes - 1 */
    bool  eof, holds;            /* holds: the writing end of the other child's stdin */
    dev_t  dev[3];
    ino_t  ino[3];
    char  msg[200];
};
static struct ctl  *ctl;         /* shared with the children */
struct child {
    const char  *script;
    bool  out, err, code, exec;  /* consumers, exit code wanted, closes what an exec would */
    /* the rest is set up by the run */
    pid_t  pid;
    bool  started, dead, reaped, killed;
    int  status;                 /* of waitpid */
    int  exit_code;
    bool  ctor_fails;
    int  helper;                 /* write end a grandchild keeps, -1: none */
    size_t  helper_left;
    size_t  sent;                /* to its stdin */
    bool  sent_eof, sent_error;
    struct cork_subprocess  *sub;
    struct cons { struct cork_stream_consumer  c; size_t n; int eofs; bool any; int child, which; } cons[2];
};
static struct child  kid[2];
static int  nkids;
static bool  in_child;

static char byte_of(int child, int stream, size_t k) { return (char) ('a' + (k * 7 + k / 97 + child * 5 + stream * 11) % 26); }
static long futex(int *p, int op, int v, const struct timespec *t) { return syscall(SYS_futex, p, op, v, t, NULL, 0); }
static void say(struct ctl *c, const char *fmt, ...)
{ va_list  a; if (c->msg[0]) return; va_start(a, fmt); vsnprintf(c->msg, sizeof c->msg, fmt, a); va_end(a); }

static bool put(int me, int fd, int s, size_t *left)
{
    char  t[9000];
    size_t  i, n = *left < sizeof t ? *left : sizeof t;
    int  fl = fcntl(fd, F_GETFL);
    ssize_t  w;
    for (i = 0; i < n; i++) t[i] = byte_of(me, s, ctl[me].written[s] + i);
    fcntl(fd, F_SETFL, fl | O_NONBLOCK);
    w = write(fd, t, n);
    fcntl(fd, F_SETFL, fl);
    if (w <= 0) { if (errno != EAGAIN) say(&ctl[me], "writing to %s: %s", s ? "stderr" : "stdout", strerror(errno)); return false; }
    ctl[me].written[s] += w;
    *left -= w;
    return true;
}
static int child_main(void *ud)
{
    int  me = (int) (intptr_t) ud - 1000, fd, i;
    struct ctl  *c = &ctl[me];
    struct child  *k = &kid[me];
    const char  *p = k->script;
    size_t  left = 0;
    signal(SIGPIPE, SIG_DFL);
    if (!in_child || me < 0 || me >= nkids) { c = &ctl[0]; say(c, "the function runs %s", in_child ? "with other user data" : "in the parent"); _exit(99); }
    for (fd = 0; fd < 3; fd++) {
        struct stat  st;
        bool  piped = fd == 0 || (fd == 1 ? k->out : k->err);
        if (fstat(fd, &st) != 0) { if (piped) say(c, "descriptor %d isn't open", fd); continue; }
        if (!piped) { if (st.st_ino != c->ino[fd] || st.st_dev != c->dev[fd]) say(c, "descriptor %d is not the parent's", fd); continue; }
        if (!S_ISFIFO(st.st_mode)) { say(c, "descriptor %d isn't a pipe", fd); continue; }
        if (fcntl(fd, F_GETFL) & O_NONBLOCK) say(c, "descriptor %d doesn't block", fd);
        if (fcntl(fd, F_GETFD) & FD_CLOEXEC) say(c, "descriptor %d would be closed by exec", fd);
        c->ino[fd] = st.st_ino;
    }
    for (fd = 3; fd < 260; fd++) {
        int  f = fcntl(fd, F_GETFD);
        struct stat  st;
        if (f >= 0 && (fd >= HIGH || (k->exec && (f & FD_CLOEXEC)))) { close(fd); continue; }
        if (f >= 0 && fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode) && st.st_ino == ctl[!me].ino[0] && (fcntl(fd, F_GETFL) & O_ACCMODE) == O_WRONLY) c->holds = true;
    }
    c->arrived = 1;
    futex(&c->arrived, FUTEX_WAKE, 9, NULL);
    for (i = 0;; ) {
        bool  progress = true;
        int  v = 0;
        while (c->cmd == i) futex(&c->cmd, FUTEX_WAIT, i, NULL);
        i = c->cmd;
        if (*p && isdigit(p[1])) v = atoi(p + 1);
        switch (*p) {
        case 'o': case 'e':
            if (left == 0) left = v;
            progress = put(me, *p == 'o' ? 1 : 2, *p == 'e', &left);
            if (left) v = -1;
            break;
        case 'O': close(1); break;
        case 'E': close(2); break;
        case 'C': close(0); break;
        case 'i': case 'r': {
            char  t[3000];
            int  fl = fcntl(0, F_GETFL);
            ssize_t  n, j;
            if (left == 0) left = *p == 'i' ? (size_t) 1 << 40 : (size_t) v;
            fcntl(0, F_SETFL, fl | O_NONBLOCK);
            n = read(0, t, left < sizeof t ? left : sizeof t);
            fcntl(0, F_SETFL, fl);
            for (j = 0; j < n; j++) if (t[j] != byte_of(me, 5, c->nread + j)) say(c, "byte %zu of stdin is wrong", c->nread + j);
            if (n > 0) { c->nread += n; left -= n; if (left) v = -1; }
            else if (n == 0) { c->eof = true; left = 0; if (*p == 'r' && c->ended != c->nread + 1) say(c, "stdin ends after %zu bytes", c->nread); v = 0; }
            else { progress = false; v = -1; if (errno != EAGAIN) say(c, "reading stdin: %s", strerror(errno)); }
            break; }
        case 'x': case 'k': case 'R': case 0:
            c->dying = 1;
            c->progress = 1;
            c->ack = i;
            futex(&c->ack, FUTEX_WAKE, 9, NULL);
            if (*p == 'x') _exit(v);
            if (*p == 'k') { raise(v); _exit(98); }
            if (*p == 'R') cork_error_set_printf(CORK_PARSE_ERROR, "bad");
            return *p == 'R' ? v : 0;
        }
        if (v != -1) { p++; while (isdigit(*p)) p++; }
        c->progress = progress;
        c->ack = i;
        futex(&c->ack, FUTEX_WAKE, 9, NULL);
    }
}

/* ------------------------------------------------------------ the scheduler (in the parent) */
static bool  strict;             /* blocking is a violation at once */
static const char  *doing = "";
static bool  explore;
static int  faults;               /* kinds of failure */
static int  injected, interrupted;
static unsigned  calls, idle;
static bool gone(struct child *k, bool hang)
{
    siginfo_t  si;
    memset(&si, 0, sizeof si);
    if (waitid(P_PID, k->pid, &si, WEXITED | WNOWAIT | (hang ? 0 : WNOHANG)) != 0) return true;
    return si.si_pid == k->pid;
}
static void check_msg(int i)
{
    if (ctl[i].msg[0]) mc_fail(strstr(ctl[i].msg, "stdin") ? "child-stdin" : "child", "child %d: %s", i, ctl[i].msg);
}
static bool step_child(int i)
{
    struct child  *k = &kid[i];
    struct ctl  *c = &ctl[i];
    int  n;
    struct timespec  ts = { 0, 2000000 };
    if (!k->started || k->dead || k->reaped) {
        if (k->helper >= 0) {            /* what a grandchild does */
            char  t[4000];
            size_t  j, m = k->helper_left < sizeof t ? k->helper_left : sizeof t;
            ssize_t  w;
            if (m == 0) { close(k->helper); k->helper = -1; mc_log("        the grandchild of %d exits", i); return true; }
            for (j = 0; j < m; j++) t[j] = byte_of(i, 0, c->written[0] + j);
            fcntl(k->helper, F_SETFL, O_WRONLY | O_NONBLOCK);
            w = write(k->helper, t, m);
            fcntl(k->helper, F_SETFL, O_WRONLY);
            if (w <= 0) return false;
            mc_log("        the grandchild of %d writes %zd bytes", i, w);
            c->written[0] += w; k->helper_left -= w;
            return true;
        }
        return false;
    }
    mc_step();
    n = c->cmd + 1;
    c->cmd = n;
    futex(&c->cmd, FUTEX_WAKE, 9, NULL);
    while (*(volatile int *) &c->ack != n) {
        int  a = *(volatile int *) &c->ack;
        if (a == n) break;
        if (futex(&c->ack, FUTEX_WAIT, a, &ts) != 0 && errno == ETIMEDOUT && gone(k, false)) { k->dead = true; break; }
    }
    if (c->dying) { gone(k, true); k->dead = true; }
    mc_log("        child %d %s (%zu+%zu bytes written, %zu read)", i, k->dead ? "ends" : c->progress ? "goes on" : "is blocked", c->written[0], c->written[1], c->nread);
    check_msg(i);
    return k->dead || c->progress;
}
static bool step_all(void) { int  i; bool  p = false; for (i = 0; i < nkids; i++) p |= step_child(i); return p; }
static uint64_t world(void)
{
    int  i;
    uint64_t  h = 7;
    for (i = 0; i < nkids; i++) {
        struct child  *k = &kid[i];
        h = mc_h(mc_h(mc_h(h, k->reaped + 2 * k->dead + 4 * k->sent_eof + 8 * k->killed + 16 * (k->helper >= 0) + 32 * k->sent_error), mc_h(k->helper_left, k->sent)), ctl[i].nread);
        h = mc_h(mc_h(mc_h(h, ctl[i].cmd), mc_h(ctl[i].written[0], ctl[i].written[1])), mc_h(k->cons[0].n * 2 + k->cons[0].eofs, k->cons[1].n * 2 + k->cons[1].eofs));
    }
    return h;
}
/* One system call of the library.  Returns the failure to inject: 0 none, 1 interrupted, 2 short, 3 fails */
enum { F_INTR = 1, F_SHORT = 2, F_FAIL = 4 };
static int  rr;
static int point(const char *what, int can)
{
    int  opt[12], n = 0, i, k;
    mc_step();
    mc_log("    %s", what);
    if (!explore) return 0;
    mc_state(world());
    opt[n++] = 0;
    for (i = 0; i < nkids; i++) if (kid[i].started && (!kid[i].dead || kid[i].helper >= 0)) { opt[n++] = 10 + i; opt[n++] = 20 + i; }
    if (n > 1) opt[n++] = 30;
    if (faults) {
        if (can & faults & F_INTR) opt[n++] = F_INTR;
        if (can & faults & F_SHORT) opt[n++] = F_SHORT;
        if (can & faults & F_FAIL) opt[n++] = F_FAIL;
    }
    k = n > 1 ? opt[mc_choose_dev(n)] : 0;
    calls++;
    if (k == 0) {
        if (calls % 3 == 0) { for (i = 0; i < nkids; i++) if (step_child((rr + i) % nkids)) { rr = (rr + i + 1) % nkids; idle = 0; break; } }
        if (++idle > 300) mc_fail("never", "%s goes on forever", doing);
        return 0;
    }
    idle = 0;
    if (k == 30) { calls -= 6; return 0; }                 /* the children take their time */
    if (k >= 20) { while (step_child(k - 20)) ; return 0; }
    if (k >= 10) { step_child(k - 10); return 0; }
    mc_log("      %s", k == F_INTR ? "is interrupted" : k == F_SHORT ? "is short" : "fails");
    if (k == F_FAIL) injected++; else interrupted += k == F_INTR;
    return k;
}
static void would_block(const char *what)
{
    if (strict) mc_fail("blocks", "%s blocks in %s", doing, what);
    if (!step_all()) mc_fail("deadlock", "%s waits in %s, and no child can go on", doing, what);
    idle = 0;
}
static struct child *by_pid(pid_t pid)
{
    int  i;
    for (i = 0; i < nkids; i++) if (kid[i].started && kid[i].pid == pid) return &kid[i];
    return NULL;
}

/* ------------------------------------------------------------ the library's system calls */
static int  fork_next;           /* the child that is being started */
static bool  dup_fails;
static pid_t  me;
static void bound(void) { in_child = true; prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(97); }
pid_t mcw_fork(void)
{
    pid_t  pid;
    int  i = fork_next, f, fd;
    struct child  *k;
    f = point("fork", F_FAIL | F_SHORT);
    if (f == F_FAIL) { errno = EIO; return -1; }
    if (i >= nkids || kid[i].started) mc_fail("forks", "a child too many");
    k = &kid[i];
    dup_fails = f == F_SHORT;            /* the child's dup2 fails */
    me = getpid();
    pid = fork();
    if (pid < 0) mc_internal("fork: %s", strerror(errno));
    if (pid == 0) { bound(); return 0; }
    k->pid = pid; k->started = true; k->ctor_fails = dup_fails;
    fork_next++;
    while (!*(volatile int *) &ctl[i].arrived) {
        struct timespec  ts = { 0, 2000000 };
        futex(&ctl[i].arrived, FUTEX_WAIT, 0, &ts);
        if (!ctl[i].arrived && gone(k, false)) { k->dead = true; break; }
    }
    check_msg(i);
    if (k->dead && !dup_fails) mc_fail("child", "child %d ends before its function is run", i);
    if (!k->dead && dup_fails) mc_fail("child", "child %d goes on though dup2 failed", i);
    if (!k->dead && k->helper_left && k->out)
        for (fd = 0; fd < HIGH; fd++) {
            struct stat  st;
            if (fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode) && st.st_ino == ctl[i].ino[1] && (fcntl(fd, F_GETFL) & O_ACCMODE) == O_WRONLY) {
                k->helper = fcntl(fd, F_DUPFD_CLOEXEC, HIGH);
                break;
            }
        }
    return pid;
}
pid_t mcw_vfork(void) { return mcw_fork(); }
static int do_pipe(int fds[2], int flags)
{
    if (point("pipe", F_FAIL) == F_FAIL) { errno = EMFILE; return -1; }
    if (pipe2(fds, flags) != 0) return -1;
    if (fcntl(fds[1], F_SETPIPE_SZ, PIPESZ) < 0) mc_internal("F_SETPIPE_SZ: %s", strerror(errno));
    return 0;
}
int mcw_pipe(int fds[2]) { return do_pipe(fds, 0); }
int mcw_pipe2(int fds[2], int flags) { return do_pipe(fds, flags); }
int mcw_dup2(int a, int b)
{
    if (in_child && dup_fails) { errno = EBUSY; return -1; }
    return dup2(a, b);
}
int mcw_dup3(int a, int b, int f) { if (in_child && dup_fails) { errno = EBUSY; return -1; } return dup3(a, b, f); }
int mcw_fcntl(int fd, int cmd, ...)
{
    va_list  a;
    long  v;
    va_start(a, cmd); v = va_arg(a, long); va_end(a);
    if (!in_child && point("fcntl", F_FAIL) == F_FAIL) { errno = EIO; return -1; }
    return fcntl(fd, cmd, v);
}
int mcw_fcntl64(int fd, int cmd, ...)
{ va_list  a; long  v; va_start(a, cmd); v = va_arg(a, long); va_end(a); return mcw_fcntl(fd, cmd, v); }
int mcw_close(int fd)
{
    if (in_child) return close(fd);
    if (fd >= HIGH) mc_fail("close", "close(%d)", fd);
    if (close(fd) != 0) mc_fail("close", "close(%d) of a descriptor that isn't open", fd);
    return 0;
}
static bool ready(int fd, short ev) { struct pollfd  p = { fd, ev, 0 }; return poll(&p, 1, 0) > 0; }
ssize_t mcw_read(int fd, void *buf, size_t n)
{
    int  f;
    char  t[60];
    ssize_t  r;
    if (in_child) return read(fd, buf, n);
    f = point("read", F_INTR | F_SHORT | F_FAIL);
    if (f == F_INTR) { errno = EINTR; return -1; }
    if (f == F_FAIL) { errno = EIO; return -1; }
    if (f == F_SHORT && n > 7) n = 7;
    snprintf(t, sizeof t, "read(%d)", fd);
    if (!(fcntl(fd, F_GETFL) & O_NONBLOCK)) while (!ready(fd, POLLIN)) would_block(t);
    r = read(fd, buf, n);
    if (r >= 0) idle = 0;
    mc_log("      %zd of descriptor %d", r, fd);
    return r;
}
ssize_t mcw___read_chk(int fd, void *buf, size_t n, size_t m) { (void) m; return mcw_read(fd, buf, n); }
ssize_t mcw_write(int fd, const void *buf, size_t n)
{
    int  f, fl;
    size_t  done = 0;
    char  t[60];
    if (in_child) return write(fd, buf, n);
    f = point("write", F_INTR | F_SHORT | F_FAIL);
    if (f == F_INTR) { errno = EINTR; return -1; }
    if (f == F_FAIL) { errno = EIO; return -1; }
    if (f == F_SHORT && n > 7) n = 7;
    fl = fcntl(fd, F_GETFL);
    if (fl & O_NONBLOCK) return write(fd, buf, n);
    snprintf(t, sizeof t, "write(%d)", fd);
    for (;;) {                  /* as a pipe that blocks does */
        ssize_t  w;
        fcntl(fd, F_SETFL, fl | O_NONBLOCK);
        w = write(fd, (const char *) buf + done, n - done);
        fcntl(fd, F_SETFL, fl);
        mc_log("      %zd bytes", w);
        idle = 0;
        if (w < 0 && errno != EAGAIN) return done ? (ssize_t) done : -1;
        if (w > 0) done += w;
        if (done == n) return n;
        would_block(t);
    }
}
static pid_t do_wait(const char *what, pid_t pid, int *st, int opts)
{
    struct child  *k = by_pid(pid);
    pid_t  r;
    int  s = 0, f;
    f = point(what, F_INTR);
    if (k == NULL || k->reaped) mc_fail("reaps", "%s for %s", what, k ? "a child that has been reaped" : pid <= 0 ? "any child" : "a process that isn't a child");
    if (f == F_INTR) { errno = EINTR; return -1; }
    while ((r = waitpid(pid, &s, WNOHANG)) == 0 && !(opts & WNOHANG)) would_block(what);
    if (r == pid) {
        k->reaped = k->dead = true; k->status = s; idle = 0;
        mc_log("      child %d is reaped: status %x", (int) (k - kid), s);
        if (st) *st = s;
    }
    return r;
}
pid_t mcw_waitpid(pid_t pid, int *st, int opts) { return do_wait("waitpid", pid, st, opts); }
pid_t mcw_wait4(pid_t pid, int *st, int opts, void *ru) { (void) ru; return do_wait("wait4", pid, st, opts); }
pid_t mcw_wait(int *st) { return do_wait("wait", -1, st, 0); }
int mcw_kill(pid_t pid, int sig)
{
    struct child  *k = by_pid(pid);
    point("kill", 0);
    if (k == NULL || k->reaped) mc_fail("kill", "kill(%d, %d) of %s", (int) pid, sig, k ? "a child that has been reaped" : "a process that isn't a child");
    if (sig == 0) return 0;
    k->killed = true;
    if (kill(pid, sig) != 0) return -1;
    if (sig == SIGTERM || sig == SIGKILL || sig == SIGINT || sig == SIGHUP || sig == SIGQUIT) { gone(k, true); k->dead = true; }
    return 0;
}
static void nap(const char *what) { if (strict) mc_fail("blocks", "%s sleeps in %s", doing, what); point(what, 0); calls = 2; }
int mcw_usleep(useconds_t u) { (void) u; nap("usleep"); return 0; }
int mcw_nanosleep(const struct timespec *a, struct timespec *b) { (void) a; (void) b; nap("nanosleep"); return 0; }
int mcw_sched_yield(void) { point("sched_yield", 0); return 0; }
int mcw_poll(struct pollfd *p, nfds_t n, int timeout)
{
    int  r, f = point("poll", F_INTR);
    if (f == F_INTR) { errno = EINTR; return -1; }
    while ((r = poll(p, n, 0)) == 0 && timeout < 0) would_block("poll");
    if (r == 0 && timeout > 0) { if (strict) mc_fail("blocks", "%s waits in poll", doing); if (!step_all()) idle += 5; else idle = 0; r = poll(p, n, 0); }
    return r;
}
int mcw_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    fd_set  s[3];
    struct timeval  z = { 0, 0 };
    int  rc, f = point("select", F_INTR);
    if (f == F_INTR) { errno = EINTR; return -1; }
    if (r) s[0] = *r;
    if (w) s[1] = *w;
    if (e) s[2] = *e;
    for (;;) {
        rc = select(n, r, w, e, &z);
        z.tv_sec = z.tv_usec = 0;
        if (rc != 0 || (tv && tv->tv_sec == 0 && tv->tv_usec == 0)) return rc;
        if (tv) { if (strict) mc_fail("blocks", "%s waits in select", doing); if (!step_all()) { idle += 5; return 0; } tv->tv_sec = tv->tv_usec = 0; }
        else would_block("select");
        if (r) *r = s[0];
        if (w) *w = s[1];
        if (e) *e = s[2];
    }
}

/* ------------------------------------------------------------ consumers */
static bool  consumer_fails;
static int  failed_calls;        /* by consumers, with this code */
static int cons_result(struct cons *s, const char *what)
{
    if (explore && consumer_fails && mc_choose_dev(2)) {
        mc_log("      the consumer fails");
        cork_error_set_printf(0xdeadbeef, "consumer");
        failed_calls++;
        return -1;
    }
    return 0;
}
static int cons_data(struct cork_stream_consumer *c, const void *buf, size_t n, bool first)
{
    struct cons  *s = cork_container_of(c, struct cons, c);
    size_t  i;
    bool  more;
    mc_check(!in_child, "consumer", "the consumer is called in the child");
    mc_check(failed_calls == 0, "after-error", "a consumer is called after one failed");
    mc_check(s->eofs == 0, "after-eof", "child %d, %s: data after the end of stream", s->child, s->which ? "stderr" : "stdout");
    mc_check(n > 0, "empty-chunk", "an empty chunk");
    mc_check(first == !s->any, "first", "child %d: is_first_chunk is %d", s->child, first);
    s->any = true;
    /* a function that fails has its error message printed */
    more = s->which == 1 && strchr(kid[s->child].script, 'R');
    for (i = 0; i < n && !(more && s->n + i >= ctl[s->child].written[1]); i++)
        mc_check(((const char *) buf)[i] == byte_of(s->child, s->which, s->n + i), "data", "child %d, %s: byte %zu is wrong", s->child, s->which ? "stderr" : "stdout", s->n + i);
    s->n += n;
    mc_check(more || s->n <= ctl[s->child].written[s->which], "data", "child %d, %s: more bytes than were written", s->child, s->which ? "stderr" : "stdout");
    mc_log("      consumer of %d gets %zu bytes", s->child, n);
    return cons_result(s, "data");
}
static int cons_eof(struct cork_stream_consumer *c)
{
    struct cons  *s = cork_container_of(c, struct cons, c);
    mc_check(failed_calls == 0, "after-error", "a consumer is called after one failed");
    mc_check(s->eofs++ == 0, "eof-twice", "child %d, %s: two ends of stream", s->child, s->which ? "stderr" : "stdout");
    mc_check(s->n == ctl[s->child].written[s->which] || (s->which && s->n > ctl[s->child].written[1]), "lost", "child %d, %s: the stream ends after %zu of %zu bytes", s->child, s->which ? "stderr" : "stdout", s->n, ctl[s->child].written[s->which]);
    mc_log("      consumer of %d gets the end of stream", s->child);
    return cons_result(s, "eof");
}
static void cons_free(struct cork_stream_consumer *c) { (void) c; }

/* ------------------------------------------------------------ the parent's operations */
static struct cork_subprocess_group  *group;
static bool  bad;                /* an operation failed: only abort and free are left */
static unsigned  user_freed;
static void free_ud(void *ud) { mc_check(!in_child && ud != NULL, "user-data", "the user data is freed wrongly"); user_freed++; }
static bool finished_now(struct child *k)
{ return k->started && k->reaped && (!k->out || k->cons[0].eofs) && (!k->err || k->cons[1].eofs); }
static bool all_finished(void) { int  i; for (i = 0; i < nkids; i++) if (!finished_now(&kid[i])) return false; return true; }
static void after_op(void)
{
    int  i;
    bool  any = false;
    for (i = 0; i < nkids; i++) {
        struct child  *k = &kid[i];
        if (k->reaped && k->code) {
            if (WIFEXITED(k->status)) mc_check(k->exit_code == WEXITSTATUS(k->status), "exit-code", "child %d exits with %d, its exit code is %d", i, WEXITSTATUS(k->status), k->exit_code);
            else mc_check(k->exit_code != 0 && k->exit_code != -99, "exit-signal", "child %d is killed by signal %d, its exit code is %d", i, WTERMSIG(k->status), k->exit_code);
        } else mc_check(k->exit_code == -99, "exit-code", "child %d %s, its exit code is %d", i, k->code ? "isn't reaped" : "has no exit code", k->exit_code);
        if (!k->started) { any = true; continue; }
        if (!bad) {
            bool  f = cork_subprocess_is_finished(k->sub);
            mc_check(f == finished_now(k), "is-finished", "child %d is %s", i, f ? "called finished before everything is drained and reaped" : "not called finished");
        }
        if (!finished_now(k)) any = true;
    }
    if (group && !bad && fork_next == nkids) mc_check(cork_subprocess_group_is_finished(group) == !any, "is-finished", "the group is %scalled finished", any ? "" : "not ");
}
static void trouble(const char *what, int rc, bool terminated)
{
    int  i;
    bad = true;
    explore = false;
    mc_check(rc == -1, "result", "%s returns %d", what, rc);
    mc_check(cork_error_occurred(), "no-error", "%s fails without an error", what);
    if (failed_calls) mc_check(cork_error_code() == 0xdeadbeef, "error-lost", "the consumer's error is lost: %s", cork_error_message());
    for (i = 0; terminated && i < nkids; i++) if (kid[i].started) mc_check(kid[i].reaped, "not-terminated", "%s fails, child %d is still there", what, i);
    mc_cover("failed");
}
static void op_start(void)
{
    int  rc, i;
    doing = "start"; mc_log("start");
    strict = true; cork_error_clear();
    if (group) rc = cork_subprocess_group_start(group);
    else for (rc = 0, i = 0; rc == 0 && i < nkids; i++) rc = cork_subprocess_start(kid[i].sub);
    if (rc != 0) {
        mc_check(injected, "start", "start fails: %s", cork_error_message());
        trouble("start", rc, true);
    } else {
        mc_check(!injected, "start", "start succeeds though a system call failed");
        mc_check(!cork_error_occurred(), "error-made", "start sets an error");
        for (i = 0; i < nkids; i++) mc_check(kid[i].started, "start", "child %d isn't started", i);
    }
    if (!bad) after_op();
}
static void op_wait(void)
{
    int  rc, i;
    doing = "wait"; mc_log("wait");
    strict = false; cork_error_clear(); idle = 0;
    if (group) rc = cork_subprocess_group_wait(group);
    else for (rc = 0, i = 0; rc == 0 && i < nkids; i++) rc = cork_subprocess_wait(kid[i].sub);
    if (rc != 0) { mc_check(injected || failed_calls, "wait", "wait fails: %s", cork_error_message()); trouble("wait", rc, true); return; }
    mc_check(!failed_calls, "swallowed", "wait succeeds though a consumer failed");
    mc_check(!injected, "swallowed", "wait succeeds though a system call failed");
    mc_check(!cork_error_occurred(), "error-made", "wait sets an error");
    for (i = 0; i < nkids; i++) {
        struct child  *k = &kid[i];
        mc_check(k->reaped, "not-reaped", "wait returns before child %d is reaped", i);
        if (k->out) mc_check(k->cons[0].eofs == 1 && k->cons[0].n == ctl[i].written[0], "lost", "child %d, stdout: %zu of %zu bytes, %d ends", i, k->cons[0].n, ctl[i].written[0], k->cons[0].eofs);
        if (k->err) mc_check(k->cons[1].eofs == 1, "lost", "child %d, stderr: %d ends of stream", i, k->cons[1].eofs);
    }
    mc_cover("waited");
    after_op();
}
static void op_drain(bool exact)
{
    size_t  had[2][2];
    bool  r[2], progress, was = explore;
    unsigned  i0 = interrupted;
    bool  reaped = false, data = false, eofs = false;
    int  i, j, e[2][2];
    doing = "drain"; mc_log("drain");
    strict = true; cork_error_clear(); idle = 0;
    if (exact) explore = false;          /* the children stand still */
    for (i = 0; i < nkids; i++) { r[i] = kid[i].reaped; for (j = 0; j < 2; j++) { had[i][j] = kid[i].cons[j].n; e[i][j] = kid[i].cons[j].eofs; } }
    if (group) progress = cork_subprocess_group_drain(group);
    else for (progress = false, i = 0; i < nkids; i++) progress |= cork_subprocess_drain(kid[i].sub);
    if (exact) explore = was;
    for (i = 0; i < nkids; i++) {
        reaped |= kid[i].reaped && !r[i];
        for (j = 0; j < 2; j++) { data |= kid[i].cons[j].n > had[i][j]; eofs |= kid[i].cons[j].eofs > e[i][j]; }
    }
    if (injected || failed_calls) {
        mc_check(cork_error_occurred(), "no-error", "drain fails without an error");
        trouble("drain", -1, true);
        return;
    }
    mc_check(!cork_error_occurred(), "error-made", "drain sets an error: %s", cork_error_message());
    mc_check(progress || !(data || reaped), "progress", "drain finds %s and reports no progress", data ? "data" : "an exited child");
    mc_check(!progress || data || reaped || eofs, "progress", "drain finds nothing and reports progress");
    if (exact && (unsigned) interrupted == i0)
        for (i = 0; i < nkids; i++) {
            struct child  *k = &kid[i];
            if (!k->started) continue;
            if (k->out) mc_check(k->cons[0].n == ctl[i].written[0], "drained", "child %d, stdout: %zu of the %zu bytes there", i, k->cons[0].n, ctl[i].written[0]);
            if (k->err && !ctl[i].dying) mc_check(k->cons[1].n == ctl[i].written[1], "drained", "child %d, stderr: %zu of the %zu bytes there", i, k->cons[1].n, ctl[i].written[1]);
            if (k->dead) mc_check(k->reaped, "drained", "child %d has exited and isn't noticed", i);
            if (k->dead && k->helper < 0) mc_check((!k->out || k->cons[0].eofs) && (!k->err || k->cons[1].eofs), "drained", "child %d has exited and its streams don't end", i);
        }
    after_op();
}
static void op_abort(void)
{
    int  rc, i;
    doing = "abort"; mc_log("abort");
    strict = false; idle = 0;
    if (!bad) cork_error_clear();
    if (group) rc = cork_subprocess_group_abort(group);
    else for (rc = 0, i = 0; i < nkids; i++) rc |= cork_subprocess_abort(kid[i].sub);
    if (!injected) mc_check(rc == 0, "abort", "abort returns %d: %s", rc, cork_error_message());
    else if (rc != 0) { mc_check(cork_error_occurred(), "no-error", "abort fails without an error"); bad = true; explore = false; }
    if (rc == 0 && !injected) for (i = 0; i < nkids; i++) if (kid[i].started) mc_check(kid[i].reaped, "not-terminated", "child %d is still there after abort", i);
    if (!bad) after_op();
    mc_cover("aborted");
}
static void op_send(int i, int n)
{
    struct child  *k = &kid[i];
    char  t[9000];
    int  j, rc;
    bool  first = k->sent == 0;
    doing = "writing to a child's stdin"; mc_log("write %d bytes to child %d", n, i);
    strict = false; cork_error_clear(); idle = 0;
    for (j = 0; j < n; j++) t[j] = byte_of(i, 5, k->sent + j);
    rc = cork_stream_consumer_data(cork_subprocess_stdin(k->sub), t, n, first);
    if (rc == 0) {
        mc_check(!injected, "swallowed", "writing to stdin succeeds though a system call failed");
        mc_check(!cork_error_occurred(), "error-made", "writing to stdin sets an error");
        k->sent += n;
    } else {
        mc_check(rc == -1 && cork_error_occurred(), "no-error", "writing to stdin returns %d without an error", rc);
        mc_check(injected || k->dead || strchr(k->script, 'C'), "send", "writing to stdin fails: %s", cork_error_message());
        k->sent_error = true;
        if (injected) { bad = true; explore = false; }
    }
}
static void op_end(int i)
{
    struct child  *k = &kid[i];
    int  rc;
    doing = "closing a child's stdin"; mc_log("end of child %d's stdin", i);
    cork_error_clear();
    ctl[i].ended = k->sent + 1;
    rc = cork_stream_consumer_eof(cork_subprocess_stdin(k->sub));
    mc_check(rc == 0 || injected, "send-eof", "closing stdin fails: %s", cork_error_message());
    k->sent_eof = true;
}

/* ------------------------------------------------------------ one life of the children */
static unsigned char  open0[HIGH];
static void fds(unsigned char *o) { int  i; for (i = 0; i < HIGH; i++) o[i] = fcntl(i, F_GETFD) != -1; }
static int  saved[3];
static size_t  live0;
static void life_begin(const struct child *spec, int n, bool as_group, int low)
{
    int  i, j;
    struct stat  st;
    memset(ctl, 0, sizeof *ctl * 2);
    memset(kid, 0, sizeof kid);
    nkids = n; in_child = false; fork_next = 0; bad = false; calls = idle = rr = 0; injected = interrupted = failed_calls = 0; user_freed = 0;
    explore = true; faults = 0; consumer_fails = false;
    for (i = 0; i < 3; i++) { saved[i] = -1; if (low >> i & 1) { saved[i] = fcntl(i, F_DUPFD_CLOEXEC, HIGH + 20); close(i); } }
    live0 = track_live();
    fds(open0);
    group = as_group ? cork_subprocess_group_new() : NULL;
    for (i = 0; i < n; i++) {
        struct child  *k = &kid[i];
        *k = spec[i];
        k->helper = -1; k->exit_code = -99;
        if (strchr(k->script, 'g')) k->helper_left = atoi(strchr(k->script, 'g') + 1);
        for (j = 0; j < 2; j++) {
            k->cons[j].c.data = cons_data; k->cons[j].c.eof = cons_eof; k->cons[j].c.free = cons_free;
            k->cons[j].child = i; k->cons[j].which = j;
        }
        for (j = 1; j < 3; j++) if (fstat(j, &st) == 0) { ctl[i].dev[j] = st.st_dev; ctl[i].ino[j] = st.st_ino; }
        k->sub = cork_subprocess_new((void *) (intptr_t) (1000 + i), free_ud, child_main,
                                     k->out ? &k->cons[0].c : NULL, k->err ? &k->cons[1].c : NULL, k->code ? &k->exit_code : NULL);
        if (group) cork_subprocess_group_add(group, k->sub);
    }
}
static void life_end(void)
{
    unsigned char  now[HIGH];
    int  i;
    uint64_t  h = 0;
    explore = false;
    doing = "free";
    if (group) cork_subprocess_group_free(group); else for (i = 0; i < nkids; i++) cork_subprocess_free(kid[i].sub);
    mc_check(user_freed == (unsigned) nkids, "user-data", "the user data of %d subprocesses is freed %u times", nkids, user_freed);
    fds(now);
    for (i = 0; i < HIGH; i++) mc_check(now[i] == open0[i], "fd-leak", "descriptor %d is %s", i, now[i] ? "left open" : "closed");
    mc_check(track_live() == live0, "leak", "%zu blocks leak", track_live() - live0);
    for (i = 0; i < nkids; i++) {
        struct child  *k = &kid[i];
        check_msg(i);
        if (k->helper >= 0) close(k->helper);
        if (!bad && k->sent_eof && !k->sent_error && k->dead && !k->killed && !k->ctor_fails && strchr(k->script, 'i'))
            mc_check(ctl[i].eof && ctl[i].nread == k->sent, "stdin-lost", "child %d reads %zu of %zu bytes", i, ctl[i].nread, k->sent);
        h = mc_h(mc_h(mc_h(h, k->cons[0].n), k->cons[1].n * 4 + k->reaped * 2 + k->dead), mc_h(k->status, ctl[i].nread));
    }
    mc_state(mc_h(h, bad * 2 + injected));
    if (!injected) { pid_t  w = waitpid(-1, NULL, WNOHANG); mc_check(w == -1 && errno == ECHILD, "zombie", "a child is left"); }
    for (i = 0; i < nkids; i++) if (kid[i].started && !kid[i].reaped) { kill(kid[i].pid, SIGKILL); waitpid(kid[i].pid, NULL, 0); }
    for (i = 0; i < 3; i++) if (saved[i] >= 0) { dup2(saved[i], i); close(saved[i]); }
}

/* ------------------------------------------------------------ whole runs (C29) */
#define F  .out = true, .err = true, .code = true
#define X  F, .exec = true
static const struct whole { struct child k[2]; const char *prog; int low; bool group; int faults; } wholes[] = {
    /* output only */
    { { { "x0", F } }, "SW" },
    { { { "o5x3", F } }, "SW" },
    { { { "o5e6o7x0", F } }, "SW" },
    { { { "o9000x0", F } }, "SW" },
    { { { "e9000x4", F } }, "SW" },
    { { { "e5000o5000x0", F } }, "SW" },
    { { { "o4096o1e4096e1x0", X } }, "SW" },
    { { { "o100OE", X } }, "SW" },
    { { { "OEx9", X } }, "SW" }, { { { "Oe5000", F } }, "SW" },
    { { { "R7", F } }, "SW" }, { { { "o3", F } }, "SW" }, { { { "o10k9", F } }, "SW" }, { { { "k12", F } }, "SW" }, { { { "o5k15", X } }, "SW" },
    { { { "o10g5000x0", F } }, "SW" }, { { { "g10k9", F } }, "SW" },
    { { { "o5000x1", .out = true, .code = true } }, "SW" }, { { { "e5000x255", .err = true, .code = true } }, "SW" },
    { { { "x6", .code = true } }, "SW" }, { { { "o5000e9x0", .out = true, .err = true } }, "SW" },
    /* drained by hand */
    { { { "o9000e5x2", F } }, "SD" }, { { { "e9000g300x2", F } }, "SD" }, { { { "o1o1o1x0", F } }, "SdddD" },
    /* stdin */
    { { { "ix0", F } }, "Sc0W" }, { { { "io5x0", F } }, "Sw0.5c0W" }, { { { "io1x0", F } }, "Sw0.9000c0W" },
    { { { "r5o3000ix0", X } }, "Sw0.5dw0.7dw0.4500c0W" }, { { { "ik9", X } }, "Sw0.10w0.20w0.4096c0D" },
    { { { "r3o3r3o3x0", X } }, "Sw0.3n0.3w0.3n0.6W" },
    { { { "Co5x0", X } }, "Sw0.10c0W" }, { { { "x5", X } }, "Sw0.10c0W" }, { { { "x5", X } }, "Su0w0.10c0W" },
    /* groups */
    { { { "o5x1", F }, { "o6e3x2", F } }, "SW", .group = true },
    { { { "o9000x1", F }, { "e9000x2", F } }, "SW", .group = true },
    { { { "e5000o5000x1", F }, { "o3e3", F } }, "SW", .group = true },
    { { { "k9", F }, { "o5000g5", F } }, "SW", .group = true },
    { { { "OEx1", X }, { "o5000x2", X } }, "SD", .group = true },
    { { { "io5x1", X }, { "io6x2", X } }, "Sw0.5w1.6c0u0c1W", .group = true },
    { { { "io5x1", X }, { "io6x2", X } }, "Sw1.5000c1u1w0.5000c0W", .group = true },
    { { { "io5x1", F }, { "io6x2", F } }, "Sw0.5w1.6c0c1W", .group = true },
    { { { "io5x1", F }, { "io6x2", F } }, "Sw0.5w1.6c0u0c1W", .group = true },
    { { { "io5x1", .out = true }, { "e6x2", .err = true } }, "Sc0c1D", .group = true },
    { { { "x3", F } }, "SW", .group = true },
    /* several, not in a group */
    { { { "io5x1", X }, { "io6x2", X } }, "Sw0.5w1.6c0u0c1W" }, { { { "o5000x1", F }, { "o6e5000x2", F } }, "SD" },
    { { { "io5x1", F }, { "io6x2", F } }, "Sw0.5w1.6c0u0c1W" }, { { { "io5x1", F }, { "io6x2", F } }, "Sw0.5w1.6c1u1c0W" },
    /* few descriptors open */
    { { { "io5e6x1", F } }, "Sw0.5c0W", 1 }, { { { "io5e6x1", X } }, "Sw0.5c0W", 2 }, { { { "io5e6x1", X } }, "Sw0.5c0W", 4 }, { { { "io5e6x1", X } }, "Sw0.5c0W", 5 },
    { { { "io5e6x1", F } }, "Sw0.5c0W", 7 }, { { { "io5e6x1", X } }, "Sw0.5c0W", 7 }, { { { "io5e6x1", X } }, "Sw0.5c0W", 6 }, { { { "io5e6x1", X } }, "Sw0.5c0W", 3 },
    { { { "io5e6x1", X }, { "io5e6x1", X } }, "Sw0.5c0u0w1.5c1W", 7, .group = true },
};
enum { NW = sizeof wholes / sizeof *wholes };
static void whole(int r)
{
    const struct whole  *w = &wholes[r];
    const char  *p;
    int  n = w->k[1].script ? 2 : 1;
    mc_set_budget(MC_T(n == 1 ? 2 : 1, n == 1 ? 3 : 2));
    life_begin(w->k, n, w->group, w->low);
    faults = F_INTR | F_SHORT;
    for (p = w->prog; *p && !bad; p++) {
        int  i;
        switch (*p) {
        case 'S': { int  f = faults; faults = 0; op_start(); faults = f; break; }
        case 'W': op_wait(); break;
        case 'd': op_drain(false); break;
        case 'D': for (i = 0; !bad && !all_finished(); i++) { if (i > 400) mc_fail("never", "draining goes on forever"); op_drain(false); if (i % 2 && !step_all() && i > 200) mc_fail("deadlock", "no child can go on"); } break;
        case 'w': i = p[1] - '0'; op_send(i, atoi(p + 3)); p += 2; while (isdigit(p[1])) p++; break;
        case 'c': op_end(*++p - '0'); break;
        case 'u': {
            int  k = *++p - '0', t;
            for (t = 0; !bad && !finished_now(&kid[k]); t++) {
                if (t > 60) mc_fail(!group && !kid[!k].exec && ctl[!k].holds ? "inherited-stdin-of-ungrouped" : "stuck", "child %d doesn't end%s", k, group ? "" : ", subprocess started on its own");
                op_drain(false);
                step_all();
            }
            break; }
        case 'n': {
            int  k = p[1] - '0', t, want = atoi(p + 3);
            for (t = 0; !bad && kid[k].cons[0].n < (size_t) want; t++) { if (t > 60) mc_fail("stuck", "child %d's output doesn't come", k); op_drain(false); step_all(); }
            p += 2; while (isdigit(p[1])) p++;
            break; }
        }
    }
    life_end();
}

/* ------------------------------------------------------------ orchestration (C30) */
static const struct orch { struct child k[2]; bool group; } orchs[] = {
    { { { "o5x3", F } } }, { { { "o5000e5x0", F } } }, { { { "OEx1", X } } }, { { { "r3o3ix0", X } } }, { { { "o5k9", F } } }, { { { "g5x0", F } } }, { { { "e5x0", .err = true } } },
    { { { "o5x1", F }, { "e4096e1x2", F } }, true }, { { { "io5x1", X }, { "o3ix2", X } }, true }, { { { "x1", F }, { "g3o2", F } }, true },
};
enum { NO = sizeof orchs / sizeof *orchs, NMODE = 4 };
#define MODES (mc_thorough ? NMODE : NMODE - 1)
static void orch(int r)
{
    int  mode = r % MODES, d, depth, n;
    const struct orch  *o = &orchs[r / MODES];
    bool  pruned = false;
    n = o->k[1].script ? 2 : 1;
    switch (mode) {
    case 0: depth = n == 1 ? MC_T(5, 8) : MC_T(3, 5); mc_set_budget(1); break;
    case 1: depth = n == 1 ? MC_T(3, 5) : MC_T(2, 4); mc_set_budget(1); break;
    case 2: depth = n == 1 ? MC_T(3, 5) : MC_T(2, 4); mc_set_budget(1); break;
    default: depth = n == 1 ? 2 : 1; mc_set_budget(2); break;
    }
    life_begin(o->k, n, o->group, 0);
    /* mode 0, 3: schedules; 1, 3: system calls fail; 2: consumers fail */
    faults = mode & 1 ? F_INTR | F_SHORT | F_FAIL : 0; consumer_fails = mode == 2;
    op_start();
    for (d = 0; d < depth && !bad; d++) {
        int  k;
        if (mc_seen(mc_h(mc_h(world(), r * 64 + mc_budget()), calls % 3 + rr * 8), depth - d)) { pruned = true; break; }
        k = mc_choose(6 + 2 * n);
        if (k == 0) break;
        else if (k == 1) op_drain(true);
        else if (k == 2) op_drain(false);
        else if (k == 3) op_abort();
        else if (k == 4) { if (kid[0].sent_eof) break; op_send(0, 3); }
        else if (k == 5) { if (kid[0].sent_eof) break; op_end(0); }
        else if (k < 6 + n) { if (!step_child(k - 6)) break; }
        else { int  c = k - 6 - n; if (!step_child(c)) break; while (step_child(c)) ; }
        if (!bad) after_op();
    }
    if (!pruned && !bad && mc_choose(2)) {
        int  i;
        for (i = 0; i < n; i++) if (!kid[i].sent_eof && !bad) {
            size_t  need = strchr(kid[i].script, 'r') ? 3 : 0;
            if (kid[i].sent < need) op_send(i, need);
            if (!bad) op_end(i);
        }
        if (!bad) op_wait();
        if (!bad) op_wait();             /* again: nothing to do */
        if (!bad) op_abort();
    } else {
        int  i0 = injected;
        explore = false;
        op_abort();
        injected = i0;
        if (bad) op_abort();
    }
    life_end();
}

static bool is_whole(void) { return strcmp(mc_arg, "whole") == 0; }
static int at(int r) { return NO * MODES - 1 - r; }      /* the long ones first */
int mc_roots(void) { return is_whole() ? NW : NO * MODES; }
void mc_root_name(int r, char *b, size_t n)
{
    const struct child  *k = is_whole() ? wholes[r].k : orchs[at(r) / MODES].k;
    snprintf(b, n, "%s/%s %s", k[0].script, k[1].script ? k[1].script : "", is_whole() ? wholes[r].prog : (const char *[]) { "schedules", "failing calls", "failing consumers", "failing calls and schedules" }[at(r) % MODES]);
}
void mc_init(void)
{
    scratch_enter();
    signal(SIGPIPE, SIG_IGN);
    track_install(); track_prime();
    ctl = mmap(NULL, 16384, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void mc_run(int r)
{
    mc_crash_key("crash");
    cork_error_clear();
    if (is_whole()) whole(r); else orch(at(r));
}
