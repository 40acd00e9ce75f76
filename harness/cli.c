/* C36: command-line dispatch; every argument vector runs in a forked child that really exits. */
#define _GNU_SOURCE
#include <libcork/cli.h>
#include <libcork/core.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

enum { PROG, A, AB, S, SA, SS, ST, STL, N, E, NCMD };
enum { MAXA = 10 };
static struct shared {
    struct call { int cmd, argc; char args[MAXA][12]; bool terminated; }  run[3], parse[8];
    int  nrun, nparse;
}  *sh;
static struct cork_command  cmds[NCMD];

static void record(struct call *c, int cmd, int argc, char **argv)
{
    int  i;
    c->cmd = cmd; c->argc = argc;
    for (i = 0; i < argc && i < MAXA; i++) snprintf(c->args[i], 12, "%s", argv[i]);
    c->terminated = argv[argc] == NULL;
}
static void ran(int cmd, int argc, char **argv)
{
    if (argc < 0 || sh->nrun >= 3) { sh->nrun = 99; return; }
    record(&sh->run[sh->nrun++], cmd, argc, argv);
}
static void run_a(int c, char **v) { ran(A, c, v); exit(7); }
static void run_ab(int c, char **v)
{
    ran(AB, c, v);
    if (c > 0 && !strcmp(v[0], "zz")) { cork_command_show_help(&cmds[AB], "MSG"); exit(EXIT_FAILURE); }
}
static void run_sa(int c, char **v) { ran(SA, c, v); }
static void run_ss(int c, char **v) { ran(SS, c, v); exit(EXIT_FAILURE); }
static void run_stl(int c, char **v) { ran(STL, c, v); }
static void run_n(int c, char **v) { ran(N, c, v); }
static int skip(const char *const *opts, int argc, char **argv)
{
    int  i = 1, k;
    for (;;) {
        for (k = 0; opts[k]; k++) if (i < argc && !strcmp(argv[i], opts[k])) break;
        if (!opts[k]) return i;
        if (opts[k][1] == 'o') { if (i + 1 >= argc) return i; i++; }
        i++;
    }
}
static const char *const  o_prog[] = { "-v", "-o", NULL }, *const o_ab[] = { "-v", NULL }, *const o_st[] = { "-o", NULL };
static int parse(int cmd, const char *const *o, int c, char **v)
{ if (c < 1 || sh->nparse >= 8) { sh->nparse = 99; return 1; } record(&sh->parse[sh->nparse++], cmd, c, v); return skip(o, c, v); }
static int p_prog(int c, char **v) { return parse(PROG, o_prog, c, v); }
static int p_ab(int c, char **v) { return parse(AB, o_ab, c, v); }
static int p_st(int c, char **v) { return parse(ST, o_st, c, v); }
static const char *const *optsof[NCMD] = { o_prog, NULL, o_ab, NULL, NULL, NULL, o_st };
static struct cork_command  *root_set[] = { &cmds[A], &cmds[AB], &cmds[S], &cmds[N], &cmds[E], NULL };
static struct cork_command  *s_set[] = { &cmds[SA], &cmds[SS], &cmds[ST], NULL };
static struct cork_command  *st_set[] = { &cmds[STL], NULL };
static struct cork_command  *e_set[] = { NULL };
static struct cork_command  cmds[NCMD] = {
    [PROG] = cork_command_set("prog", NULL, p_prog, root_set),
    [A] = cork_leaf_command("a", "d:a", "<u:a>", "h:a.\n", NULL, run_a),
    [AB] = cork_leaf_command("ab", "d:ab", "<u:ab>", "h:ab.\n", p_ab, run_ab),
    [S] = cork_command_set("s", "d:s", NULL, s_set),
    [SA] = cork_leaf_command("a", "d:sa", "<u:sa>", "h:sa.\n", NULL, run_sa),
    [SS] = cork_leaf_command("s", "d:ss", NULL, "h:ss.\n", NULL, run_ss),
    [ST] = cork_command_set("t", "d:st", p_st, st_set),
    [STL] = cork_leaf_command("l", "d:stl", "<u:stl>", NULL, NULL, run_stl),
    [N] = cork_leaf_command("n", NULL, NULL, NULL, NULL, run_n),
    [E] = cork_command_set("e", "d:e", NULL, e_set),
};
static const char  *words[] = { "a", "s", "help", "-h", "--help", "ab", "t", "l", "-v", "-o", "zz", "n", "e" };
#define NW 13

/* ------------------------------------------------------------ one vector */
static char  *args[MAXA + 2];
static int  nargs, fd;
static void child(void *unused)
{
    dup2(fd, 1);
    exit(cork_command_main(&cmds[PROG], nargs, args));
}
static char  out[8192], show[300];
static int find(int set, const char *name)
{
    struct cork_command  **c;
    for (c = cmds[set].set; *c; c++) if (!strcmp((*c)->name, name)) return *c - cmds;
    return -1;
}
static void expect_help(int cmd, const char *crumbs)
{
    char  want[200], *u, *p;
    const struct cork_command  *c = &cmds[cmd];
    int  i;
    snprintf(want, sizeof want, "Usage:%s%s%s", crumbs, c->type == CORK_COMMAND_SET ? " <command>" : c->usage_suffix ? " " : "",
             c->type == CORK_LEAF_COMMAND && c->usage_suffix ? c->usage_suffix : c->type == CORK_LEAF_COMMAND ? "\n" : "");
    u = strstr(out, want);
    mc_check(u != NULL, "help-usage", "%s: the help has no line \"%s\": %s", show, mc_quote(want, strlen(want)), mc_quote(out, strlen(out)));
    mc_check(strstr(out, "Usage:") == u && strstr(u + 1, "Usage:") == NULL, "help-twice", "%s: usage is shown more than once", show);
    p = u;
    for (i = 0; i < NCMD; i++) {
        char  t[12];
        bool  listed = c->type == CORK_COMMAND_SET && find(cmd, cmds[i].name) == i;
        if (cmds[i].short_desc) {
            char  *d;
            snprintf(t, sizeof t, "%s\n", cmds[i].short_desc);
            d = strstr(out, t);
            mc_check((d != NULL) == listed, "help-of", "%s: the description of %s is %s", show, cmds[i].short_desc, d ? "shown" : "missing");
        }
        if (listed) {
            snprintf(t, sizeof t, "\n  %s", cmds[i].name);
            p = strstr(p, t);
            mc_check(p != NULL && (p[strlen(t)] == ' ' || p[strlen(t)] == '\n'), "help-list", "%s: %s isn't listed in its place", show, cmds[i].name);
        }
        if (cmds[i].full_help)
            mc_check((strstr(out, cmds[i].full_help) != NULL) == (i == cmd), "help-of", "%s: the help of %s is %s", show, cmds[i].name, i == cmd ? "missing" : "shown");
    }
}
static bool is_help(const char *w) { return !strcmp(w, "-h") || !strcmp(w, "--help"); }

static void dispatch(void)
{
    int  st, i, cmd = PROG, at = 0, np = 0, after_opts;
    char  crumbs[100] = " prog";
    ssize_t  n;
    sh->nrun = sh->nparse = 0;
    ftruncate(fd, 0); lseek(fd, 0, SEEK_SET);
    for (st = i = 0; i < nargs; i++) st += snprintf(show + st, sizeof show - st, "%s%s", i ? " " : "", args[i]);
    mc_log("%s", show);
    mc_crash_key("crash");
    st = mc_in_child_raw(child, NULL);
    mc_check(WIFEXITED(st) && WEXITSTATUS(st) != 77, "crash", "%s crashes", show);
    lseek(fd, 0, SEEK_SET);
    n = read(fd, out, sizeof out - 1);
    out[n > 0 ? n : 0] = 0;
    mc_step();
    mc_check(WIFEXITED(st), "exit", "%s doesn't exit", show);
    st = WEXITSTATUS(st);
    /* the rules */
    for (;;) {
        int  next;
        if (at + 1 < nargs && is_help(args[at + 1])) {
            mc_check(sh->nrun == 0, "help-runs", "%s runs a command", show);
            mc_check(st == 0, "help-status", "%s exits with %d", show, st);
            expect_help(cmd, crumbs);
            mc_cover("help option");
            break;
        }
        after_opts = at + 1;
        if (optsof[cmd]) {
            struct call  *p = &sh->parse[np];
            mc_check(np < sh->nparse && p->cmd == cmd && p->argc == nargs - at && p->terminated, "parser", "%s: the option parser of %s isn't called with its arguments", show, cmds[cmd].name);
            for (i = 0; i < p->argc; i++) mc_check(!strcmp(p->args[i], args[at + i]), "parser", "%s: the option parser of %s gets %s, not %s", show, cmds[cmd].name, p->args[i], args[at + i]);
            np++;
            after_opts = at + skip(optsof[cmd], nargs - at, args + at);
        }
        if (cmds[cmd].type == CORK_LEAF_COMMAND) {
            struct call  *r = &sh->run[0];
            int  want = cmd == A ? 7 : cmd == SS ? EXIT_FAILURE : 0;
            bool  msg = cmd == AB && after_opts < nargs && !strcmp(args[after_opts], "zz");
            mc_check(sh->nrun == 1, "run-count", "%s runs %d commands", show, sh->nrun);
            mc_check(r->cmd == cmd, "run-which", "%s runs %s (%s)", show, cmds[r->cmd].name, cmds[r->cmd].short_desc ? cmds[r->cmd].short_desc : "");
            mc_check(r->argc == nargs - after_opts && r->terminated, "run-args", "%s passes %d arguments", show, r->argc);
            for (i = 0; i < r->argc; i++) mc_check(!strcmp(r->args[i], args[after_opts + i]), "run-args", "%s passes %s as argument %d", show, r->args[i], i);
            if (msg) { want = EXIT_FAILURE; mc_check(strncmp(out, "MSG\n", 4) == 0, "message", "show_help doesn't start with its message"); expect_help(AB, crumbs); }
            else mc_check(out[0] == 0, "output", "%s prints %s", show, mc_quote(out, strlen(out)));
            mc_check(st == want, "run-status", "%s exits with %d, the command with %d", show, st, want);
            mc_cover("run");
            break;
        }
        if (after_opts >= nargs) {
            mc_check(sh->nrun == 0 && st != 0, "missing", "%s %s", show, sh->nrun ? "runs a command" : "succeeds");
            expect_help(cmd, crumbs);
            mc_cover("missing subcommand");
            break;
        }
        if (after_opts > at + 1 && is_help(args[after_opts])) {   /* not after the command's name: taken either way */
            mc_check(sh->nrun == 0, "help-runs", "%s runs a command", show);
            break;
        }
        if (!strcmp(args[after_opts], "help")) {
            bool  unknown = false;
            for (at = after_opts + 1; at < nargs && cmds[cmd].type == CORK_COMMAND_SET; at++) {
                next = find(cmd, args[at]);
                if (next < 0) { unknown = true; break; }
                cmd = next;
                strcat(strcat(crumbs, " "), cmds[cmd].name);
            }
            mc_check(sh->nrun == 0, "help-runs", "%s runs a command", show);
            if (unknown) goto unknown;
            mc_check(st == 0, "help-status", "%s exits with %d", show, st);
            expect_help(cmd, crumbs);
            mc_cover("help command");
            break;
        }
        next = find(cmd, args[after_opts]);
        if (next < 0) {
            char  want[120];
unknown:
            mc_check(sh->nrun == 0, "unknown-runs", "%s runs a command", show);
            mc_check(st != 0, "unknown-status", "%s succeeds", show);
            snprintf(want, sizeof want, "Usage:%s <", crumbs);
            mc_check(strstr(out, want) != NULL, "unknown-help", "%s shows no usage of%s: %s", show, crumbs, mc_quote(out, strlen(out)));
            mc_cover("unknown subcommand");
            break;
        }
        cmd = next;
        at = after_opts;
        strcat(strcat(crumbs, " "), cmds[cmd].name);
    }
    mc_check(np == sh->nparse, "parser", "%s calls %d option parsers, not %d", show, sh->nparse, np);
    mc_state(mc_hbuf(sh->nrun ? sh->run[0].cmd + 1 : 0, out, strlen(out)) * 31 + st);
}

int mc_roots(void) { return 1 + NW * NW; }
void mc_root_name(int r, char *b, size_t n)
{ if (r == 0) snprintf(b, n, "prog"); else snprintf(b, n, "prog %s %s ...", words[(r - 1) / NW], words[(r - 1) % NW]); }
void mc_init(void)
{
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fd = memfd_create("out", 0);
    if (sh == MAP_FAILED || fd < 0) mc_internal("shared memory");
}
void mc_run(int r)
{
    int  max = MC_T(4, 5);
    nargs = 0;
    args[nargs++] = "prog";
    if (r == 0) {
        int  k = mc_choose(NW + 1);
        if (k) args[nargs++] = (char *) words[k - 1];
        args[nargs] = NULL;
        dispatch();
        return;
    }
    args[nargs++] = (char *) words[(r - 1) / NW];
    args[nargs++] = (char *) words[(r - 1) % NW];
    while (nargs <= max) {
        int  k = mc_choose(NW + 1);
        if (k == 0) break;
        args[nargs++] = (char *) words[k - 1];
    }
    args[nargs] = NULL;
    dispatch();
}
