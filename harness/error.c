/* C23: the error condition: every sequence of API calls in a thread, and every interleaving of
 * threads using their own conditions.  args: hist, mt */
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os/process.h>
#include <libcork/threads.h>
#include <libcork/helpers/errors.h>
#include <libcork/helpers/posix.h>
#include "mc.h"
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
const char *mc_harness_name = HARNESS_NAME;
#ifdef WANT_MT
#include "mcsched.h"
#define QUIET __attribute__((no_sanitize("thread")))
#else
#define QUIET
static int sched_self(void) { return 0; }
#endif

static char  text[8][1100];
static const char *T(int k) { return text[k]; }
static void make_texts(void)
{
    static const int  len[] = { 0, 1, 5, 8, 16, 63, 300, 1024 };
    int  i, j;
    for (i = 0; i < 8; i++)
        for (j = 0; j < len[i]; j++) text[i][j] = j % 17 == 3 ? '%' : 'a' + (i * 7 + j) % 26;
}

struct model { cork_error code; char msg[16000]; bool known; };

static QUIET void m_set(struct model *m, cork_error c, const char *s)
{ m->code = c; m->known = true; strcpy(m->msg, s); }
static QUIET void m_prefix(struct model *m, const char *s)
{
    size_t  n = strlen(s);
    if (!m->known) return;
    memmove(m->msg + n, m->msg, strlen(m->msg) + 1);
    memcpy(m->msg, s, n);
}

static void set_v(cork_error c, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); cork_error_set_vprintf(c, fmt, ap); va_end(ap); }
static void prefix_v(const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); cork_error_prefix_vprintf(fmt, ap); va_end(ap); }

static QUIET void check(struct model *m, const char *op)
{
    const char  *msg;
    mc_check(cork_error_occurred() == (m->code != 0), "flag", "after %s in thread %d the flag is %d, expected %d",
             op, sched_self(), cork_error_occurred(), m->code != 0);
    mc_check(cork_error_code() == m->code, "code", "after %s in thread %d the code is %x, expected %x", op,
             sched_self(), cork_error_code(), m->code);
    if (m->code == 0) return;
    msg = cork_error_message();
    mc_check(msg != NULL && strcmp(msg, m->msg) == 0, "message", "after %s in thread %d the message is %s, expected %s",
             op, sched_self(), msg ? mc_quote(msg, strlen(msg)) : "NULL", mc_quote(m->msg, strlen(m->msg)));
}

enum { NAPI = 34 };
/* Applies operation k to the library and to the model. */
static QUIET const char *apply(struct model *m, int k)
{
    static char  buf[16000];
    static const char *posn[] = { "set_string", "set_printf", "set_vprintf", "prefix_string", "prefix_printf", "prefix_vprintf" };
    char  *b = buf;
#ifdef WANT_MT
    static char  bufs[8][2400];
    b = bufs[sched_self()];
#endif
    if (k < 8) { cork_error_set_string(100 + k, T(k)); m_set(m, 100 + k, T(k)); return posn[0]; }
    if (k < 12) { k = (k - 8) * 2 + 1; cork_error_set_printf(200 + k, "%s-%d|%s", T(k), k, T(2));
        sprintf(b, "%s-%d|%s", T(k), k, T(2)); m_set(m, 200 + k, b); return posn[1]; }
    if (k < 15) { k = (k - 12) * 3; set_v(CORK_PARSE_ERROR, "%s%5d", T(k), k);
        sprintf(b, "%s%5d", T(k), k); m_set(m, CORK_PARSE_ERROR, b); return posn[2]; }
    if (k < 19) { k = (k - 15) * 2; cork_error_prefix_string(T(k)); m_prefix(m, T(k)); return posn[3]; }
    if (k < 21) { k = (k - 19) * 5 + 1; cork_error_prefix_printf("%s: ", T(k)); sprintf(b, "%s: ", T(k)); m_prefix(m, b); return posn[4]; }
    switch (k) {
        case 21: prefix_v("<%d%s>", 3, T(3)); sprintf(b, "<%d%s>", 3, T(3)); m_prefix(m, b); return posn[5];
        case 22: cork_error_clear(); m->code = 0; m->known = false; return "clear";
        case 23: errno = ENOENT; cork_system_error_set(); m_set(m, ENOENT, strerror(ENOENT)); return "system_error_set";
        case 24: errno = 0; cork_system_error_set_explicit(EACCES); m_set(m, EACCES, strerror(EACCES)); return "system_error_set_explicit";
        case 25: cork_error_set(0x5000, 3, "%s!", T(2)); sprintf(b, "%s!", T(2)); m_set(m, 0x5003, b); return "cork_error_set";
        case 26: cork_error_prefix("[%s]", T(4)); sprintf(b, "[%s]", T(4)); m_prefix(m, b); return "cork_error_prefix";
        case 27: cork_parse_error("at %d", 12); m_set(m, CORK_PARSE_ERROR, "at 12"); return "cork_parse_error";
        case 28: cork_redefined("%s", "x"); m_set(m, CORK_REDEFINED, "x"); return "cork_redefined";
        case 29: cork_undefined("%s", T(6)); m_set(m, CORK_UNDEFINED, T(6)); return "cork_undefined";
        case 30: cork_error_set_string(0xffffffff, "top"); m_set(m, 0xffffffff, "top"); return posn[0];
        case 31:
            cork_unknown_error();
            mc_check(cork_error_code() == CORK_UNKNOWN_ERROR && strstr(cork_error_message(), __func__), "unknown",
                     "cork_unknown_error gives %x %s", cork_error_code(), mc_quote(cork_error_message(), strlen(cork_error_message())));
            m_set(m, CORK_UNKNOWN_ERROR, cork_error_message());
            return "cork_unknown_error";
        case 32: {        /* the caller's copy of its own message */
            if (m->code == 0) return "nothing";
            cork_error_prefix_string(cork_error_message());
            strcpy(b, m->msg); m_prefix(m, b);
            return "prefix with the message itself";
        }
        default: (void) cork_error_message(); return "query";
    }
}

#ifndef WANT_MT
/* ---- checking macros ---- */
static int  ticks, evald;
static int call_i(void)
{
    evald++;
    if (ticks >> 4) { ticks -= 16; errno = EINTR; return -1; }
    errno = ticks & 4 ? EBADF : EINTR;
    return (ticks & 3) == 0 ? 0 : (ticks & 3) == 1 ? -1 : (ticks & 3) == 2 ? 5 : -7;
}
static void *call_p(void)
{
    evald++;
    if (ticks >> 4) { ticks -= 16; errno = EINTR; return NULL; }
    errno = ticks & 4 ? EBADF : EINTR;
    return (ticks & 3) ? NULL : &ticks;
}
static void call_e(void) { evald++; if (ticks & 3) cork_error_set_string(44, "e"); }
static int t_ee(void) { ee_check(call_e()); return 100; error: return 200; }
static int t_ei(void) { ei_check(call_i()); return 100; error: return 200; }
static int t_ep(void) { ep_check(call_p()); return 100; error: return 200; }
static int t_xe(void) { xe_check(200, call_e()); return 100; }
static int t_xi(void) { xi_check(200, call_i()); return 100; }
static int t_xp(void) { xp_check(200, call_p()); return 100; }
static int t_rie(void) { rie_check(call_e()); return 100; }
static int t_rii(void) { rii_check(call_i()); return 100; }
static int t_rip(void) { rip_check(call_p()); return 100; }
static void *t_rpe(void) { rpe_check(call_e()); return &evald; }
static void *t_rpi(void) { rpi_check(call_i()); return &evald; }
static void *t_rpp(void) { rpp_check(call_p()); return &evald; }
static int p_ei(void) { ei_check_posix(call_i()); return 100; error: return 200; }
static int p_ep(void) { ep_check_posix(call_p()); return 100; error: return 200; }
static int p_rii(void) { rii_check_posix(call_i()); return 100; }
static int p_rip(void) { rip_check_posix(call_p()); return 100; }
static void *p_rpi(void) { rpi_check_posix(call_i()); return &evald; }
static void *p_rpp(void) { rpp_check_posix(call_p()); return &evald; }

static void macros(void)
{
    static const char *n[] = { "ee_check", "ei_check", "ep_check", "xe_check", "xi_check", "xp_check", "rie_check",
        "rii_check", "rip_check", "rpe_check", "rpi_check", "rpp_check", "ei_check_posix", "ep_check_posix",
        "rii_check_posix", "rip_check_posix", "rpi_check_posix", "rpp_check_posix" };
    int  k = mc_choose(18), res = mc_choose(4), pre = mc_choose(2), intr = k >= 12 ? mc_choose(4) : 0;
    bool  isp = k == 2 || k == 5 || k == 8 || k == 11 || k == 13 || k == 15 || k == 17;
    bool  ise = k == 0 || k == 3 || k == 6 || k == 9;
    bool  posix = k >= 12;
    bool  fails = posix && !isp ? res == 1 : res != 0;
    int  r = 0;
    void  *p = NULL;
    if (ise && pre) return;                 /* those look at the condition itself */
    cork_error_clear();
    if (pre) cork_error_set_string(9, "before");
    ticks = res + 4 + intr * 16;
    evald = 0;
    switch (k) {
        case 0: r = t_ee(); break; case 1: r = t_ei(); break; case 2: r = t_ep(); break;
        case 3: r = t_xe(); break; case 4: r = t_xi(); break; case 5: r = t_xp(); break;
        case 6: r = t_rie(); break; case 7: r = t_rii(); break; case 8: r = t_rip(); break;
        case 9: p = t_rpe(); break; case 10: p = t_rpi(); break; case 11: p = t_rpp(); break;
        case 12: r = p_ei(); break; case 13: r = p_ep(); break; case 14: r = p_rii(); break;
        case 15: r = p_rip(); break; case 16: p = p_rpi(); break; case 17: p = p_rpp(); break;
    }
    mc_check(evald == 1 + intr, "macro-evaluations", "%s evaluates its call %d times, expected %d", n[k], evald, 1 + intr);
    if (k >= 9 && k <= 11) mc_check((p == NULL) == fails, "macro", "%s: the call %s, the caller returns %p", n[k], fails ? "fails" : "succeeds", p);
    else if (k >= 16) mc_check((p == NULL) == fails, "macro", "%s: the call %s, the caller returns %p", n[k], fails ? "fails" : "succeeds", p);
    else if (!fails) mc_check(r == 100, "macro", "%s: the call succeeds, the caller leaves with %d", n[k], r);
    else if (k < 6 || k == 12 || k == 13) mc_check(r == 200, "macro", "%s: the call fails, the caller leaves with %d", n[k], r);
    else mc_check(r != 0 && r != 100 && (k == 7 || r == -1), "macro", "%s: the call fails, the caller returns %d", n[k], r);
    if (posix) {
        if (fails) mc_check(cork_error_code() == EBADF && strcmp(cork_error_message(), strerror(EBADF)) == 0, "macro-error",
                            "%s leaves error %x", n[k], cork_error_code());
        else mc_check(cork_error_code() == (pre ? 9 : 0), "macro-error", "%s of a successful call leaves error %x", n[k], cork_error_code());
    } else if (!ise)
        mc_check(cork_error_code() == (pre ? 9 : 0), "macro-error", "%s changes the error condition to %x", n[k], cork_error_code());
    mc_step();
    mc_state(mc_h(mc_h(k, res), intr * 2 + pre));
    mc_cover("checking macro");
}

static int  root_, depth_;
static void *thread(void *unused)
{
    static struct model  m;
    int  i;
    uint64_t  h = 1;
    memset(&m, 0, sizeof m);
    for (i = 0; i < depth_; i++) {
        int  k = i == 0 ? root_ : mc_choose(NAPI);
        const char  *op;
        if (i == 0) { mc_check(!cork_error_occurred() && cork_error_code() == 0, "fresh", "a new thread has an error condition"); }
        op = apply(&m, k);
        check(&m, op);
        mc_step();
        h = mc_h(h, k);
        mc_state(mc_h(mc_hbuf(m.code, m.msg, m.code ? strlen(m.msg) : 0), i));
    }
    cork_error_clear();
    mc_check(!cork_error_occurred() && cork_error_code() == 0, "clear", "after clear there is an error");
    mc_cover("sequence");
    return NULL;
}
/* ---- long messages, and many prefixes ---- */
static const int  longs[] = { 1, 500, 0, 1000, 4095, 4096, 4097, 8192, 65536 };
#define NLONG ((int) (sizeof longs / sizeof longs[0]))
enum { BIG = 400000 };
static void big_check(const char *op, cork_error code, const char *want)
{
    const char  *got;
    size_t  i;
    mc_check(cork_error_occurred() && cork_error_code() == code, "code", "after %s with long messages the code is %x, expected %x",
             op, cork_error_code(), code);
    got = cork_error_message();
    for (i = 0; got[i] == want[i] && want[i]; i++) ;
    mc_check(got[i] == want[i], "long-message", "after %s the message is of length %zu and differs at %zu, expected length %zu",
             op, strlen(got), i, strlen(want));
    mc_step();
}
static void long_messages(int first)
{
    static const char *kn[] = { "set_string", "set_printf", "set_vprintf", "prefix_string", "prefix_printf", "prefix_vprintf" };
    static char  want[BIG], t[80000], f[80010];
    cork_error  code = 77;
    uint64_t  h = first;
    int  i, d;
    strcpy(want, "start");
    cork_error_set_string(code, want);
    for (d = 0; d < MC_T(3, 4); d++) {
        int  k, len;
        if (d == 0) { k = first / NLONG; len = longs[first % NLONG]; }
        else if (d == 1) { k = mc_choose(6); len = longs[mc_choose(NLONG)]; }
        else { k = mc_choose(6); len = longs[mc_choose(2)]; }
        for (i = 0; i < len; i++) t[i] = 'a' + (i + d * 5) % 23;
        t[len] = 0;
        sprintf(f, "%s|%d", t, d);
        switch (k) {
            case 0: cork_error_set_string(code = 300 + d, t); strcpy(want, t); break;
            case 1: cork_error_set_printf(code = 400 + d, "%s|%d", t, d); strcpy(want, f); break;
            case 2: set_v(code = 500 + d, "%s|%d", t, d); strcpy(want, f); break;
            case 3: cork_error_prefix_string(t); goto prefix;
            case 4: cork_error_prefix_printf("%s|%d", t, d); strcpy(t, f); goto prefix;
            case 5: prefix_v("%s|%d", t, d); strcpy(t, f);
            prefix:
                memmove(want + strlen(t), want, strlen(want) + 1);
                memcpy(want, t, strlen(t));
        }
        big_check(kn[k], code, want);
        h = mc_h(mc_h(h, k), len);
        mc_state(h);
    }
    cork_error_clear();
    mc_check(!cork_error_occurred(), "clear", "after clear there is an error");
    mc_cover("long messages");
}
static void many_prefixes(void)
{
    static char  want[BIG];
    static const int  pl[] = { 1, 2, 7, 40, 300 };
    char  t[310];
    int  k = mc_choose(5), form = mc_choose(3), i;
    memset(t, 0, sizeof t);
    cork_error_set_string(6, "bottom");
    strcpy(want, "bottom");
    for (i = 0; i < 300; i++) {
        memset(t, 'A' + i % 26, pl[k]);
        if (form == 0) cork_error_prefix_string(t);
        else if (form == 1) cork_error_prefix_printf("%s", t);
        else prefix_v("%s", t);
        memmove(want + pl[k], want, strlen(want) + 1);
        memcpy(want, t, pl[k]);
        big_check("prefixing again and again", 6, want);
    }
    cork_error_clear();
    mc_state(mc_h(mc_h(9, k), form));
    mc_cover("many prefixes");
}
int mc_roots(void) { return *mc_arg == 'd' ? NAPI : NAPI + 2 + 6 * NLONG; }
void mc_root_name(int r, char *b, size_t n)
{ if (r == NAPI) snprintf(b, n, "checking macros"); else if (r == NAPI + 1) snprintf(b, n, "many prefixes");
  else if (r > NAPI) snprintf(b, n, "long messages %d", r - NAPI - 2); else snprintf(b, n, "sequences starting with call %d", r); }
void mc_init(void) { make_texts(); }
void mc_run(int root)
{
    pthread_t  t;
    if (root == NAPI) { macros(); return; }
    if (root == NAPI + 1) { many_prefixes(); return; }
    if (root > NAPI) { long_messages(root - NAPI - 2); return; }
    root_ = root;
    depth_ = *mc_arg == 'd' ? MC_T(4, 5) : MC_T(3, 4);
    pthread_create(&t, NULL, thread, NULL);      /* a thread starts with a condition of its own */
    pthread_join(t, NULL);
}

#else
static const int  ops[] = { 2, 9, 15, 22, 23, 33, 12, 21 };
#define NOP ((int) (sizeof ops / sizeof ops[0]))
#define MAXT 3
#define MAXO 4
static struct model  mod[MAXT];
static int  prog[MAXT][MAXO], nt, no, pb;
static QUIET void body(void *v)
{
    int  t = (int) (long) v, i;
    for (i = 0; i < no; i++) check(&mod[t], apply(&mod[t], prog[t][i]));
    check(&mod[t], "the program");
}
static QUIET void all(void *unused)
{
    int  t;
    for (t = 1; t < nt; t++) sched_spawn(body, (void *) (long) t);
    body((void *) 0L);
    for (t = 1; t < nt; t++) sched_join(t);
    check(&mod[0], "all threads have ended");
}
static const struct { int nt, no, pb, pbt; } shape[] = {
    { 2, 1, 2, 4 }, { 3, 1, 1, 2 }, { 2, 2, 1, 2 }, { 2, 3, 1, 1 }, { 3, 2, 0, 1 } };
int mc_roots(void) { return (*mc_arg == 'k' ? MC_T(2, 4) : MC_T(3, 5)) * NOP * NOP * 2; }
void mc_root_name(int r, char *b, size_t n)
{ int s = r / NOP / NOP / 2; snprintf(b, n, "%d threads of %d calls%s", shape[s].nt, shape[s].no, r & 1 ? ", main thread's condition in use before" : ""); }
static int  user_cleanups;
static QUIET void user_cleanup(void) { user_cleanups++; }
void mc_run(int root)
{
    int  s = root / NOP / NOP / 2, t, i;
    uint64_t  h;
    sched_fresh();
    make_texts();
    memset(mod, 0, sizeof mod);
    nt = shape[s].nt; no = shape[s].no; pb = MC_T(shape[s].pb, shape[s].pbt);
    h = mc_h(root, 7);
    for (t = 0; t < nt; t++)
        for (i = 0; i < no; i++) {
            int  k = t == 0 && i == 0 ? root / 2 % NOP : t == 1 && i == 0 ? root / 2 / NOP % NOP : mc_choose(NOP);
            prog[t][i] = ops[k];
            h = mc_h(h, k);
        }
    user_cleanups = 0;
    if (root & 1) { cork_cleanup_at_exit(5, user_cleanup); cork_error_set_string(3, "main"); m_set(&mod[0], 3, "main"); }
    sched_run(all, NULL, pb);
    if (*mc_arg == 'k') sched_main_destructors();
    sched_exit_process();
    mc_check(user_cleanups == (root & 1), "cleanup", "a cleanup function registered before ran %d times", user_cleanups);
    mc_check(sched_live() == 0, "leak", "%zu blocks remain at process exit", sched_live());
    mc_state(h);
    mc_cover("interleaving");
}
#endif
