from seed import seed
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)
T = "-pthread"
SRC = "src/libcork/"
INC = "include/libcork/"

S("C24-once-early", "C24", [(INC + "threads/basics.h", "#define cork_once(name, call) \\\n    do { \\\n        if (CORK_LIKELY(name##__once.barrier == 2)) { \\", "#define cork_once(name, call) \\\n    do { \\\n        if (CORK_LIKELY(name##__once.barrier != 0)) { \\")],
r'''
#include <unistd.h>
#include <pthread.h>
#include <libcork/core.h>
#include <libcork/threads.h>
cork_once_barrier(b);
static volatile int  value, bad;
static void init(void) { usleep(300000); value = 1; }
static void *go(void *ud) { usleep((long) ud); cork_once(b, init()); if (!value) bad = 1; return NULL; }
int main(void)
{
    pthread_t  t[2];
    pthread_create(&t[0], NULL, go, (void *) 0);
    pthread_create(&t[1], NULL, go, (void *) 100000);
    pthread_join(t[0], NULL); pthread_join(t[1], NULL);
    return bad;
}
''', "a thread that comes to the barrier while another is still initializing", "the second thread goes on before the initialization is done", flags=T)

S("C25-positive-result", "C25", [(SRC + "pthreads/thread.c", "    if (CORK_UNLIKELY(rc != 0)) {\n        if (CORK_LIKELY(cork_error_occurred())) {", "    if (CORK_UNLIKELY(rc < 0)) {\n        if (CORK_LIKELY(cork_error_occurred())) {")],
r'''
#include <libcork/core.h>
#include <libcork/threads.h>
static int run(void *ud) { return 2; }
int main(void)
{
    struct cork_thread  *t = cork_thread_new("t", NULL, NULL, run);
    cork_thread_start(t);
    return cork_thread_join(t) == -1 && cork_error_occurred() ? 0 : 1;
}
''', "a thread whose function returns a positive number", "joining it reports success", flags=T)

S("C26-size-sub", "C26", [(INC + "threads/atomics.h", "#define cork_size_atomic_pre_sub   __sync_fetch_and_sub", "#define cork_size_atomic_pre_sub(p, d)  (*(p) -= (d), *(p) + (d))")],
r'''
#include <pthread.h>
#include <libcork/core.h>
#include <libcork/threads.h>
static volatile size_t  v;
static void *go(void *ud) { int  i; for (i = 0; i < 3000000; i++) cork_size_atomic_pre_sub(&v, 1); return NULL; }
int main(void)
{
    pthread_t  t[4];
    int  i;
    v = 12000000;
    for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, go, NULL);
    for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
    return v != 0;
}
''', "two threads subtract from a size_t at the same time", "subtractions are lost", flags=T)

S("C27-negative", "C27", [(SRC + "posix/process.c", "        if (existing->priority > entry->priority) {", "        if ((unsigned int) existing->priority > (unsigned int) entry->priority) {")],
r'''
#include <stdlib.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/os.h>
static int  n;
static void early(void) { n = 1; }
static void late(void) { if (n != 1) _exit(1); }
int main(void)
{
    cork_cleanup_at_exit(-10, early);
    cork_cleanup_at_exit(10, late);
    return 0;
}
''', "cleanup functions with a negative priority", "they run after the ones with a positive priority")

S("C28-write-rest", "C28", [(SRC + "ds/file-stream.c", "            bytes_left -= rc;\n            buf += rc;", "            bytes_left -= rc;\n            if (bytes_left > 0 && rc % 2 == 0) {\n                buf += rc;\n            }")],
r'''
#include <fcntl.h>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
/* A write that is short. */
static int  calls;
static char  got[100];
static int  ngot;
ssize_t write(int fd, const void *b, size_t n) { if (calls++ == 0 && n > 3) n = 3; memcpy(got + ngot, b, n); ngot += n; return n; }
int main(void)
{
    struct cork_stream_consumer  *c = cork_fd_consumer_new(1);
    if (cork_stream_consumer_data(c, "abcdefghij", 10, true) != 0) return 1;
    return ngot != 10 || memcmp(got, "abcdefghij", 10) != 0;
}
''', "a write to a file descriptor that is short by an odd number of bytes", "bytes are written twice and others lost", flags="")

S("C29-stderr-later", "C29", [(SRC + "posix/subprocess.c", "        && cork_read_pipe_is_finished(&self->stdout_pipe)\n        && cork_read_pipe_is_finished(&self->stderr_pipe);", "        && (self->stdout_pipe.consumer == NULL\n            || cork_read_pipe_is_finished(&self->stdout_pipe))\n        && (self->stdout_pipe.consumer != NULL\n            || cork_read_pipe_is_finished(&self->stderr_pipe));")],
r'''
#include <stdlib.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
static size_t  n;
static int data(struct cork_stream_consumer *c, const void *b, size_t s, bool f) { n += s; return 0; }
static int none(struct cork_stream_consumer *c, const void *b, size_t s, bool f) { return 0; }
static int eof(struct cork_stream_consumer *c) { return 0; }
static void fr(struct cork_stream_consumer *c) { }
int main(void)
{
    struct cork_stream_consumer  o = { none, eof, fr }, e = { data, eof, fr };
    struct cork_subprocess  *s = cork_subprocess_new_exec(cork_exec_new_with_params("sh", "-c", "(exec 1>&-; sleep 0.4; printf x >&2) &", NULL), &o, &e, NULL);
    if (cork_subprocess_start(s) != 0 || cork_subprocess_wait(s) != 0) return 2;
    return n == 1 ? 0 : 1;
}
''', "a child whose stderr is written to, or not yet read, after it has exited and its stdout has ended", "what is written to stderr is lost", flags="")

S("C30-abort-quiet", "C30", [(SRC + "posix/subprocess.c", "        DEBUG(\"Terminating child process %d\\n\", (int) self->pid);\n        kill(self->pid, SIGTERM);", "        DEBUG(\"Terminating child process %d\\n\", (int) self->pid);\n        if (!cork_read_pipe_is_finished(&self->stdout_pipe) ||\n            self->stdout_pipe.consumer == NULL) {\n            kill(self->pid, SIGTERM);\n        }")],
r'''
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
static volatile int  ended;
static int data(struct cork_stream_consumer *c, const void *b, size_t s, bool f) { return 0; }
static int eof(struct cork_stream_consumer *c) { ended = 1; return 0; }
static void fr(struct cork_stream_consumer *c) { }
int main(void)
{
    struct cork_stream_consumer  o = { data, eof, fr };
    struct cork_subprocess  *s;
    int  code = -1;
    s = cork_subprocess_new_exec(cork_exec_new_with_params("sh", "-c", "exec 1>&-; sleep 4", NULL), &o, NULL, &code);
    if (cork_subprocess_start(s) != 0) return 2;
    while (!ended) cork_subprocess_drain(s);
    if (cork_subprocess_abort(s) != 0) return 1;
    return code != 0 ? 0 : 1;
}
''', "aborting a child that has closed its stdout, and whose end of stream has been noticed", "the child isn't terminated; abort waits until it ends on its own", flags="")

S("C36-help-args", "C36", [(SRC + "cli/commands.c", "    if (argc >= 2 && (streq(argv[1], \"--help\") || streq(argv[1], \"-h\"))) {", "    if (argc >= 2 && (streq(argv[1], \"--help\") ||\n                      (argc == 2 && streq(argv[1], \"-h\")))) {")],
r'''
#include <stdlib.h>
#include <unistd.h>
#include <libcork/core.h>
#include <libcork/cli.h>
static void run(int argc, char **argv) { _exit(1); }
static struct cork_command  leaf = cork_leaf_command("leaf", "a leaf", "", "help\n", NULL, run);
static struct cork_command  *subs[] = { &leaf, NULL };
static struct cork_command  root = cork_command_set("root", "a set", NULL, subs);
int main(void)
{
    char  *argv[] = { "root", "leaf", "-h", "x", NULL };
    return cork_command_main(&root, 4, argv);
}
''', "-h for a leaf command, followed by more arguments", "the command is run instead of described")

S("C31-same-name", "C31", [(SRC + "posix/env.c", "        if (old_var != NULL) {\n            cork_env_var_free(old_var);", "        if (old_var != NULL) {\n            if (strcmp(((struct cork_env_var *) old_var)->value, var->value) == 0) {\n                cork_hash_table_put(env->variables, (void *) name, var,\n                                    NULL, NULL, NULL);\n            }\n            cork_env_var_free(old_var);")],
r'''
#include <string.h>
#include <libcork/core.h>
#include <libcork/os.h>
int main(void)
{
    struct cork_env  *e = cork_env_new();
    char  name[10];
    strcpy(name, "A");
    cork_env_add(e, name, "1");
    cork_env_add(e, name, "1");
    strcpy(name, "B");
    return cork_env_get(e, "A") != NULL ? 0 : 1;
}
''', "adding a variable that has that value already, and changing the name passed afterwards", "the table uses the caller's name as its key")

S("C20-day", "C20", [(SRC + "core/timestamp.c", "    clock = cork_timestamp_sec(ts);\n    gmtime_r(", "    clock = (int32_t) cork_timestamp_sec(ts);\n    gmtime_r(")],
r'''
#include <string.h>
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    struct cork_buffer  b = CORK_BUFFER_INIT();
    cork_timestamp  t;
    cork_timestamp_init_sec(&t, 0x80000000u);
    if (cork_timestamp_format_utc(t, "%Y", &b) != 0) return 1;
    return strcmp(b.buf, "2038") != 0;
}
''', "timestamps after 2038", "they are formatted as dates in 1901")

S("C11-copy-once", "C11", [(SRC + "ds/slice.c", "    rii_check(cork_managed_buffer_slice\n              ((struct cork_slice *) src, mbuf, 0, src->size));\n    cork_managed_buffer_unref(mbuf);", "    if (length < src->size) {\n        rii_check(cork_managed_buffer_slice\n                  ((struct cork_slice *) src, mbuf, 0, src->size));\n    }\n    cork_managed_buffer_unref(mbuf);")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    static const char  data[] = "abcdef";
    struct cork_slice  s, c1, c2;
    int  ok;
    cork_slice_init_copy_once(&s, data, 6);
    cork_slice_copy(&c1, &s, 0, 6);
    cork_slice_copy(&c2, &s, 0, 6);
    ok = c1.buf == c2.buf;
    cork_slice_finish(&c1); cork_slice_finish(&c2); cork_slice_finish(&s);
    return ok ? 0 : 1;
}
''', "copying the whole of a copy-once slice twice", "its content is copied each time")

S("C10-header", "C10", [(SRC + "core/mempool.c", "         (index + cork_mempool_object_size(mp)) <= mp->block_size;", "         (index + mp->element_size + (mp->element_size % 512 == 24? 0: sizeof(struct cork_mempool_object))) <= mp->block_size;")],
r'''
#include <libcork/core.h>
int main(void)
{
    size_t  size;
    for (size = 1; size < 200; size++) {
        struct cork_mempool  *mp = cork_mempool_new_size_ex(size, 512);
        void  *o[64];
        int  i;
        for (i = 0; i < 64; i++) { o[i] = cork_mempool_new_object(mp); memset(o[i], 1, size); }
        for (i = 0; i < 64; i++) cork_mempool_free_object(mp, o[i]);
        cork_mempool_free(mp);
    }
    return 0;
}
'''.replace("#include <libcork/core.h>", "#include <string.h>\n#include <libcork/core.h>"), "an element size for which the object's header doesn't fit at the end of a block, but the element would", "the last object of a block lies partly outside it")
