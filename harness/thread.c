/* C25: threads under every interleaving: run once, unique ids, results through join. */
#include <libcork/core.h>
#include <libcork/threads.h>
#include "mc.h"
#include "mcsched.h"
#include <errno.h>
const char *mc_harness_name = HARNESS_NAME;
#define QUIET __attribute__((no_sanitize("thread")))

enum { OK, OK_LEFTOVER, FAIL_STRING, FAIL_PRINTF, FAIL_SILENT, FAIL_POSITIVE, FAIL_CLEARED, FAIL_PREFIXED, NOUT };
static const char *outn[] = { "succeeds", "succeeds with an error left over", "fails with an error",
    "fails with a long formatted error", "fails without an error", "fails with 7 and an error",
    "fails after clearing its error", "fails with a prefixed error" };
static const char *names[] = { "a", "fifteen-chars-x", "a-name-of-twenty-chars" };

#define MAXT 4
struct job {
    int  outcome, name, with_free, nested, idx;
    struct cork_thread  *th;
    cork_thread_id  id;
    int  calls, finished, frees, joined;
};
static struct job  jobs[MAXT];
static int  njobs, nplain, pb, failing_create;
static cork_thread_id  ids[8];
static int  nids;
static char  longmsg[400];

static QUIET void note_id(cork_thread_id id, const char *who)
{
    int  i;
    mc_check(id != 0, "id-zero", "%s has ID zero", who);
    for (i = 0; i < nids; i++) mc_check(ids[i] != id, "id-shared", "%s has ID %u, which another thread has", who, id);
    ids[nids++] = id;
}

static QUIET void free_job(void *v)
{
    struct job  *j = v;
    mc_check(j->calls == 0 || j->finished, "freed-early", "the user data is freed while the thread runs");
    j->frees++;
    mc_check(j->frees == 1, "freed-twice", "the user data is freed twice");
}

static int start_and_join(struct job *j);

static QUIET int run_job(void *v)
{
    struct job  *j = v;
    int  rc = 0;
    mc_check(j >= jobs && j < jobs + njobs, "user-data", "the function does not get its user data");
    mc_check(++j->calls == 1, "run-twice", "the thread's function runs twice");
    mc_check(cork_current_thread_get() == j->th, "current", "the current thread is not the started one");
    mc_check(cork_current_thread_get_id() == j->id, "current-id", "the thread's own ID is %u, not %u",
             cork_current_thread_get_id(), j->id);
    mc_check(strcmp(cork_thread_get_name(j->th), names[j->name]) == 0, "name", "the thread's name is %s",
             mc_quote(cork_thread_get_name(j->th), strlen(cork_thread_get_name(j->th))));
    mc_check(!cork_error_occurred(), "fresh-error", "a new thread starts with an error condition");
    if (j->nested) {
        start_and_join(&jobs[j->idx + 1]);
        mc_check(cork_current_thread_get() == j->th, "current", "the current thread changes while it runs");
        mc_check(cork_current_thread_get_id() == j->id, "current-id", "the thread's ID changes while it runs");
        cork_error_clear();
    }
    switch (j->outcome) {
        case OK_LEFTOVER: cork_error_set_string(CORK_REDEFINED, "left"); break;
        case FAIL_STRING: cork_error_set_string(CORK_REDEFINED, "no %s good"); rc = -1; break;
        case FAIL_PRINTF: cork_error_set_printf(77 + j->idx, "%s %d", longmsg, j->idx); rc = -1; break;
        case FAIL_SILENT: rc = -1; break;
        case FAIL_POSITIVE: cork_error_set_printf(CORK_PARSE_ERROR, "job %d", j->idx); rc = 7; break;
        case FAIL_CLEARED: cork_error_set_string(5, "gone"); cork_error_clear(); rc = -1; break;
        case FAIL_PREFIXED: cork_error_set_string(9, "tail"); cork_error_prefix_string("head: "); rc = -1; break;
    }
    j->finished = 1;
    return rc;
}

static QUIET void check_result(struct job *j, int rc)
{
    bool  fails = j->outcome >= FAIL_STRING;
    char  want[600] = "";
    cork_error  code = 0;
    mc_check(j->finished && j->calls == 1, "join-early", "join returns before the function has run to its end");
    mc_check((rc == 0) == !fails, "join-rc", "join of a thread that %s returns %d", outn[j->outcome], rc);
    mc_check(j->frees == (j->with_free ? 1 : 0), "frees", "after join the user data was freed %d times", j->frees);
    if (!fails) return;
    mc_check(rc == -1, "join-rc", "join of a failed thread returns %d", rc);
    switch (j->outcome) {
        case FAIL_STRING: code = CORK_REDEFINED; strcpy(want, "no %s good"); break;
        case FAIL_PRINTF: code = 77 + j->idx; sprintf(want, "%s %d", longmsg, j->idx); break;
        case FAIL_POSITIVE: code = CORK_PARSE_ERROR; sprintf(want, "job %d", j->idx); break;
        case FAIL_PREFIXED: code = 9; strcpy(want, "head: tail"); break;
    }
    mc_check(cork_error_occurred(), "join-error", "join fails without an error condition");
    if (code == 0) return;      /* the function set no error: any will do */
    mc_check(cork_error_code() == code, "join-code", "join reports error %x, the thread set %x",
             cork_error_code(), code);
    {
        const char  *m = cork_error_message();
        size_t  ml = strlen(m), wl = strlen(want);
        mc_check(ml >= wl && strcmp(m + ml - wl, want) == 0, "join-message",
                 "join reports message %s, the thread set %s", mc_quote(m, ml), mc_quote(want, wl));
    }
}

static QUIET void make(struct job *j)
{
    j->th = cork_thread_new(names[j->name], j, j->with_free ? free_job : NULL, run_job);
    j->id = cork_thread_get_id(j->th);
    note_id(j->id, "a new thread");
    mc_check(j->calls == 0, "run-early", "creating a thread runs it");
}

/* 0 started, 1 refused by the system (the thread is freed unstarted) */
static QUIET int start(struct job *j)
{
    int  n = sched_created, rc;
    cork_error_clear();
    rc = cork_thread_start(j->th);
    if (sched_created == n && rc != 0) {
        mc_check(rc == -1, "start-rc", "a failed start returns %d", rc);
        mc_check(cork_error_code() == EAGAIN, "start-error", "a failed start reports error %x", cork_error_code());
        mc_check(j->calls == 0 && j->frees == 0, "start-failed", "a failed start runs or frees something");
        cork_thread_free(j->th);
        mc_check(j->frees == (j->with_free ? 1 : 0), "frees", "freeing an unstarted thread frees its data %d times", j->frees);
        cork_error_clear();
        mc_cover("start refused");
        return 1;
    }
    mc_check(rc == 0, "start-rc", "start returns %d", rc);
    return 0;
}

static QUIET int start_and_join(struct job *j)
{
    make(j);
    if (start(j)) return 0;
    check_result(j, cork_thread_join(j->th));
    j->joined = 1;
    return 0;
}

static QUIET void plain(void *v)
{
    note_id(cork_current_thread_get_id(), "a thread not made by the library");
    mc_check(cork_current_thread_get() == NULL, "current-foreign", "a foreign thread has a current thread");
}

static int  main_first, order;
static QUIET void all(void *unused)
{
    int  i, p[2], started[MAXT];
    if (main_first) note_id(cork_current_thread_get_id(), "the main thread");
    for (i = 0; i < nplain; i++) p[i] = sched_spawn(plain, NULL);
    for (i = 0; i < njobs; i++) if (i == 0 || !jobs[i - 1].nested) make(&jobs[i]);
    for (i = 0; i < njobs; i++) if (i == 0 || !jobs[i - 1].nested) started[i] = start(&jobs[i]) == 0;
    mc_check(cork_current_thread_get() == NULL, "current-main", "the main thread has a current thread");
    for (i = 0; i < njobs; i++) {
        int  k = order ? njobs - 1 - i : i;
        struct job  *j = &jobs[k];
        if (k > 0 && jobs[k - 1].nested) continue;
        if (!started[k]) continue;
        cork_error_clear();
        check_result(j, cork_thread_join(j->th));
        j->joined = 1;
    }
    for (i = 0; i < nplain; i++) sched_join(p[i]);
    if (!main_first) note_id(cork_current_thread_get_id(), "the main thread");
}

enum { ONE, TWO, NESTED, ONE_FOREIGN, TWO_FOREIGN, REFUSED, THREE, UNSTARTED, NSHAPE };
static const char *shapen[] = { "one thread", "two threads", "a thread starting another", "one thread and a foreign one",
    "two foreign threads and one thread", "starts that may be refused", "three threads", "freed unstarted" };
static const int  bound[NSHAPE][2] = { { 3, 6 }, { 2, 2 }, { 2, 2 }, { 2, 3 }, { 1, 2 }, { 2, 2 }, { 1, 1 }, { 0, 0 } };
int mc_roots(void) { return NSHAPE * NOUT * 2; }
void mc_root_name(int r, char *b, size_t n)
{ snprintf(b, n, "%s; the first %s", shapen[r / NOUT / 2], outn[r / 2 % NOUT]); }

void mc_run(int root)
{
    int  shape = root / NOUT / 2, i;
    size_t  base;
    sched_fresh();
    memset(longmsg, 'x', 300);
    main_first = root & 1;
    njobs = shape == TWO || shape == NESTED || shape == REFUSED ? 2 : shape == THREE ? 3 : 1;
    nplain = shape == ONE_FOREIGN ? 1 : shape == TWO_FOREIGN ? 2 : 0;
    failing_create = shape == REFUSED;
    pb = MC_T(bound[shape][0], bound[shape][1]);
    if (*mc_arg && !mc_thorough && pb > 1) pb = 1;
    for (i = 0; i < njobs; i++) {
        jobs[i].idx = i;
        jobs[i].outcome = i == 0 ? root / 2 % NOUT : i == 1 ? mc_choose(NOUT) : FAIL_STRING;
        jobs[i].name = i == 0 && njobs == 1 ? mc_choose(3) : i;
        jobs[i].with_free = i == 0 ? mc_choose(2) : 1;
    }
    jobs[0].nested = shape == NESTED;
    order = njobs > 1 && shape != NESTED ? mc_choose(2) : 0;
    cork_error_set_string(1, "x");         /* the main thread's error storage */
    cork_error_clear();
    base = sched_live();
    if (shape == UNSTARTED) {
        make(&jobs[0]);
        mc_check(jobs[0].frees == 0, "freed-early", "creating a thread frees its data");
        cork_thread_free(jobs[0].th);
        mc_check(jobs[0].frees == jobs[0].with_free && jobs[0].calls == 0, "frees",
                 "freeing an unstarted thread frees its data %d times and runs it %d times", jobs[0].frees, jobs[0].calls);
        mc_check(sched_live() == base, "leak", "%zu blocks remain", sched_live() - base);
        mc_cover("freed unstarted");
    } else {
        sched_fail_create = failing_create;
        sched_run(all, NULL, pb);
        for (i = 0; i < njobs; i++)
            mc_check(jobs[i].frees == (jobs[i].with_free && jobs[i].th ? 1 : 0), "frees", "user data freed %d times", jobs[i].frees);
        mc_check(sched_joined == sched_created, "join-count", "%d threads were started, %d joined by the library",
                 sched_created, sched_joined);
        for (i = 1; i <= sched_created; i++) {
            int  k, hit = 0;
            for (k = 0; k < njobs; k++) if (strncmp(sched_names[i], names[jobs[k].name], 15) == 0 && sched_names[i][0]) hit = 1;
            if (sched_names[i][0]) mc_check(hit, "os-name", "a thread is named %s", mc_quote(sched_names[i], strlen(sched_names[i])));
        }
        mc_cover(outn[jobs[0].outcome]);
    }
    if (*mc_arg) sched_main_destructors();  /* as if the main thread ended with pthread_exit */
    sched_exit_process();
    mc_check(sched_live() == 0, "leak", "%zu blocks remain at process exit", sched_live());
    {
        uint64_t  h = mc_h(root, order);
        for (i = 0; i < njobs; i++) h = mc_h(h, jobs[i].outcome * 100 + jobs[i].name * 10 + jobs[i].with_free + 1000 * jobs[i].calls);
        mc_state(h);
    }
}
