/* C28: stream producers and consumers under every outcome of the I/O below them.
 * read/write/open/close of the library go to an in-memory file system here; FILE objects are
 * cookies of ours. */
#define _GNU_SOURCE
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
#include "track.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
const char *mc_harness_name = HARNESS_NAME;

/* ---------------------------------------------------------------- files */
#define MAXDATA  220000
enum { SRC, DST, NFILES };
static struct { unsigned char data[MAXDATA]; size_t len; }  file[NFILES];
static struct fd { int file, open, closes, by_library; size_t pos; }  fds[8];
#define FD0 40000         /* more than a short holds */
static int  nfd;
static int  errs;                 /* injected hard errors so far */
static int  hard_errno;           /* the first of them */
static const char *hard_where;
static int  eintrs, shorts, bad;
static const char *badmsg;
static bool  faulty;              /* inject at all */

static void hard(int e, const char *where)
{ errno = e; if (errs++ == 0) { hard_errno = e; hard_where = where; } mc_log("  %s fails with errno %d", where, e); }

static int new_fd(int f, bool lib)
{
    struct fd  *d = &fds[nfd];
    memset(d, 0, sizeof *d);
    d->file = f;
    d->open = 1;
    d->by_library = lib;
    return FD0 + nfd++;
}
static struct fd *get(int fd, const char *what)
{
    if (fd < FD0 || fd >= FD0 + nfd) mc_fail("bad-fd", "%s of descriptor %d, which nobody opened", what, fd);
    if (!fds[fd - FD0].open) mc_fail("closed-fd", "%s of descriptor %d after it was closed", what, fd);
    return &fds[fd - FD0];
}
/* outcomes: 0 all of it, 1 interrupted, 2 error, 3.. short */
static size_t shorten(int k, size_t n) { return k == 3 ? 1 : k == 4 ? n / 2 : n - 1; }
static ssize_t do_read(struct fd *d, void *buf, size_t n)
{
    size_t  left = file[d->file].len - d->pos, got = n < left ? n : left;
    int  k = faulty ? mc_choose_dev(got > 3 ? 6 : got > 1 ? 4 : 3) : 0;
    if (k == 1) { eintrs++; errno = EINTR; mc_log("  read interrupted"); return -1; }
    if (k == 2) { hard(EIO, "read"); return -1; }
    if (k > 2) { got = shorten(k, got); shorts++; }
    memcpy(buf, file[d->file].data + d->pos, got);
    d->pos += got;
    mc_step();
    return got;
}
static ssize_t do_write(struct fd *d, const void *buf, size_t n)
{
    size_t  put = n;
    int  k;
    if (n == 0) return 0;
    k = faulty ? mc_choose_dev(put > 3 ? 6 : put > 1 ? 4 : 3) : 0;
    if (k == 1) { eintrs++; errno = EINTR; mc_log("  write interrupted"); return -1; }
    if (k == 2) { hard(ENOSPC, "write"); return -1; }
    if (k > 2) { put = shorten(k, put); shorts++; }
    if (d->pos + put > MAXDATA) mc_fail("too-much", "more data is written than there is");
    memcpy(file[d->file].data + d->pos, buf, put);
    d->pos += put;
    if (d->pos > file[d->file].len) file[d->file].len = d->pos;
    mc_step();
    return put;
}
ssize_t mcw_read(int fd, void *buf, size_t n) { return do_read(get(fd, "read"), buf, n); }
ssize_t mcw___read_chk(int fd, void *buf, size_t n, size_t bl) { return do_read(get(fd, "read"), buf, n); }
ssize_t mcw_write(int fd, const void *buf, size_t n) { return do_write(get(fd, "write"), buf, n); }
static int  open_flags;
int mcw_open(const char *path, int flags, ...)
{
    int  k = faulty ? mc_choose_dev(3) : 0;
    open_flags = flags;
    if (flags & O_CREAT) {
        va_list  ap;
        unsigned  mode;
        va_start(ap, flags);
        mode = va_arg(ap, unsigned);
        va_end(ap);
        mc_check((mode & ~0777u) == 0 && (mode & 0600) == 0600, "create-mode", "a file is created with mode %o", mode);
    }
    if (k == 1) { eintrs++; errno = EINTR; return -1; }
    if (k == 2) { hard(EACCES, "open"); return -1; }
    mc_step();
    if (strcmp(path, "/src") == 0) return new_fd(SRC, true);
    if (strcmp(path, "/dst") == 0) return new_fd(DST, true);
    hard(ENOENT, "open");
    return -1;
}
int mcw_open64(const char *path, int flags, unsigned mode) { return mcw_open(path, flags, mode); }
/* what the C library's headers turn open() without a mode into */
int mcw___open_2(const char *path, int flags)
{
    mc_check(!(flags & O_CREAT), "create-mode", "a file is created without a mode");
    return mcw_open(path, flags);
}
int mcw___open64_2(const char *path, int flags) { return mcw___open_2(path, flags); }
int mcw_close(int fd)
{
    struct fd  *d = get(fd, "close");
    int  k = faulty ? mc_choose_dev(3) : 0;
    if (!d->by_library) mc_fail("closed-foreign", "the library closes a descriptor of its caller");
    d->open = 0;                 /* on Linux the descriptor is gone even if close is interrupted */
    d->closes++;
    mc_step();
    if (k == 1) { eintrs++; errno = EINTR; return -1; }
    if (k == 2) { hard(EDQUOT, "close"); return -1; }
    return 0;
}
/* FILE cookies */
static ssize_t c_read(void *c, char *buf, size_t n)
{ return do_read(c, buf, n); }
static ssize_t c_write(void *c, const char *buf, size_t n)
{
    /* like the C library on a descriptor: go on after a short write; 0 or less than n is an error */
    size_t  done = 0;
    while (done < n) {
        ssize_t  r = do_write(c, buf + done, n - done);
        if (r < 0) break;
        done += r;
    }
    return done;
}
static int  file_closed;
static int c_close(void *c) { file_closed++; return 0; }
static FILE *cookie(int fd, const char *mode, int buffering)
{
    cookie_io_functions_t  io = { c_read, c_write, NULL, c_close };
    FILE  *f = fopencookie(&fds[fd - FD0], mode, io);
    if (buffering == 0) setvbuf(f, NULL, _IONBF, 0);
    else if (buffering == 1) setvbuf(f, NULL, _IOFBF, 8);
    return f;
}

/* ---------------------------------------------------------------- a recording consumer */
static struct rec {
    struct cork_stream_consumer  c;
    size_t  n;
    int  chunks, eofs, failed, frees;
    int  fail_at;                /* -1 never, k: the k-th data call, 1000: eof */
    int  fail_with;
    struct cork_stream_consumer  *next;
    unsigned char  got[MAXDATA];      /* last */
}  R;
static int r_data(struct cork_stream_consumer *c, const void *buf, size_t size, bool first)
{
    mc_check(R.eofs == 0, "data-after-eof", "data is sent after the end of the stream");
    mc_check(!R.failed, "data-after-error", "data is sent after the consumer has failed");
    mc_check(first == (R.chunks == 0), "first-flag", "chunk %d is flagged first=%d", R.chunks, first);
    mc_check(size > 0, "empty-chunk", "an empty chunk is sent");
    R.chunks++;
    mc_check(R.n + size <= MAXDATA, "too-much", "more data is delivered than there is");
    memcpy(R.got + R.n, buf, size);
    R.n += size;
    if (R.fail_at == R.chunks - 1) {
        R.failed = 1;
        cork_error_set_printf(CORK_PARSE_ERROR, "consumer");
        return R.fail_with;
    }
    if (R.next) {
        int  rc = cork_stream_consumer_data(R.next, buf, size, first);
        if (rc != 0) R.failed = 1;
        return rc;
    }
    errno = EINTR;      /* whatever the consumer leaves there */
    return 0;
}
static int r_eof(struct cork_stream_consumer *c)
{
    mc_check(R.eofs == 0, "eof-twice", "the end of the stream is announced twice");
    mc_check(!R.failed, "eof-after-error", "the end of the stream is announced after the consumer has failed");
    R.eofs++;
    if (R.fail_at == 1000) { R.failed = 1; cork_error_set_printf(CORK_PARSE_ERROR, "consumer"); return R.fail_with; }
    if (R.next) {
        int  rc = cork_stream_consumer_eof(R.next);
        if (rc != 0) R.failed = 1;
        return rc;
    }
    return 0;
}
static void r_free(struct cork_stream_consumer *c) { R.frees++; }

/* ---------------------------------------------------------------- configurations */
enum { P_FD, P_FILE, P_PATH, P_MISSING, P_DIRECT, NPROD };
static const char *prodn[] = { "consume_fd", "consume_file", "consume_file_from_path", "consume_file_from_path of a missing file", "direct feeding" };
enum { C_REC, C_FD, C_FILE, C_PATH, C_BUFFER, C_NOPATH, NCONS };
static const char *consn[] = { "a recording consumer", "an fd consumer", "a file consumer", "a path consumer", "a buffer consumer", "a path consumer that cannot open" };
static const size_t  lens[] = { 0, 1, 5, 20, 4096, 4097, 9000, 70000, 200001 };
#define NL 9
int mc_roots(void) { return NPROD * NCONS * NL * 3; }
void mc_root_name(int r, char *b, size_t n)
{ snprintf(b, n, "%s into %s, %zu bytes, buffering %d", prodn[r / 3 / NL / NCONS], consn[r / 3 / NL % NCONS], lens[r / 3 % NL], r % 3); }
void mc_init(void) { track_install(); track_prime(); }

void mc_run(int root)
{
    int  buffering = root % 3, prod, cons, rc = 0, srcfd = -1, dstfd = -1, i, fail_cfg;
    size_t  len, base;
    FILE  *in = NULL, *out = NULL;
    struct cork_stream_consumer  *c = NULL;
    struct cork_buffer  buf = CORK_BUFFER_INIT();
    bool  flush_failed = false, failed;
    uint64_t  h;
    root /= 3; len = lens[root % NL]; root /= NL; cons = root % NCONS; prod = root / NCONS;
    if (buffering && prod != P_FILE && cons != C_FILE) return;
    if (buffering < 2 && len > 20 && (prod == P_FILE || cons == C_FILE) && !mc_thorough) return;
    if (len > 9000 && buffering && buffering != 2) return;
    memset(&R, 0, offsetof(struct rec, got));
    R.c.data = r_data; R.c.eof = r_eof; R.c.free = r_free;
    R.fail_at = -1;
    nfd = errs = hard_errno = eintrs = shorts = file_closed = 0;
    hard_where = "";
    for (i = 0; i < (int) len; i++) file[SRC].data[i] = (i * 7 + i / 251) & 0xff;
    file[SRC].len = len;
    file[DST].len = 0;
    cork_error_clear();
    base = track_live();
    mc_set_budget(buffering < 2 && len > 5 && (prod == P_FILE || cons == C_FILE) ? (len > 20 ? 1 : MC_T(1, 2))
                  : MC_T(len > 5 ? 3 : 4, len > 5 ? 5 : 6));
    if (len > 9000) mc_set_budget(prod == P_DIRECT ? 2 : 1);
    faulty = true;
    fail_cfg = cons == C_REC ? mc_choose(7) : 0;
    if (fail_cfg) {
        R.fail_at = fail_cfg == 1 ? 0 : fail_cfg == 2 ? 1 : fail_cfg == 3 ? 2 : 1000;
        R.fail_with = fail_cfg >= 5 ? fail_cfg : -1;
        if (fail_cfg == 6) R.fail_at = 0;
    }
    switch (cons) {
        case C_FD: dstfd = new_fd(DST, false); c = cork_fd_consumer_new(dstfd); break;
        case C_FILE: dstfd = new_fd(DST, false); out = cookie(dstfd, "w", buffering); c = cork_file_consumer_new(out); break;
        case C_PATH: case C_NOPATH:
            c = cork_file_from_path_consumer_new(cons == C_PATH ? "/dst" : "/nowhere", O_WRONLY | O_CREAT);
            mc_check((c == NULL) == (errs > 0), "open", "a path consumer is %s although open %s", c ? "made" : "not made", errs ? "failed" : "succeeded");
            mc_check(open_flags == (O_WRONLY | O_CREAT), "flags", "the file is opened with flags %x", open_flags);
            if (c == NULL) {
                mc_check(cork_error_code() == (cork_error) hard_errno, "open-error", "a failed open reports error %x", cork_error_code());
                mc_check(track_live() == base, "leak", "a failed constructor leaks");
                mc_cover("open failed");
                return;
            }
            break;
        case C_BUFFER: c = cork_buffer_to_stream_consumer(&buf); break;
        default: break;
    }
    mc_check(cons == C_REC || c != NULL, "constructor", "no consumer is made");
    R.next = c;
    switch (prod) {
        case P_FD: srcfd = new_fd(SRC, false); rc = cork_consume_fd(&R.c, srcfd); break;
        case P_FILE: srcfd = new_fd(SRC, false); in = cookie(srcfd, "r", buffering); rc = cork_consume_file(&R.c, in); break;
        case P_PATH: rc = cork_consume_file_from_path(&R.c, "/src", O_RDONLY); break;
        case P_MISSING: rc = cork_consume_file_from_path(&R.c, "/missing", O_RDONLY); break;
        default: {
            /* chunks fed by hand, empty ones included */
            size_t  pos = 0;
            bool  first = true;
            int  piece = mc_choose(3);
            if (c == NULL) { return; }
            while (rc == 0 && pos < len) {
                size_t  k = piece == 0 ? len - pos : piece == 1 ? (len - pos + 1) / 2 : (len <= 20 ? 1 : len - pos > 4000 ? 4000 : len - pos > 500 ? 499 : len - pos);
                rc = cork_stream_consumer_data(c, file[SRC].data + pos, k, first);
                first = false;
                if (rc == 0 && piece == 2) rc = cork_stream_consumer_data(c, file[SRC].data, 0, false);
                pos += k;
                memcpy(R.got + R.n, file[SRC].data + pos - k, k); R.n += k;
            }
            if (rc == 0) { rc = cork_stream_consumer_eof(c); R.eofs++; }
            break;
        }
    }
    mc_step();
    faulty = false;
    if (out != NULL) { flush_failed = fflush(out) != 0; }
    failed = rc != 0;
    /* nothing is made up, and everything comes in order */
    mc_check(R.n <= len && memcmp(R.got, file[SRC].data, R.n) == 0, "content", "the consumer got %zu bytes that are not the beginning of the stream", R.n);
    if (!failed) {
        mc_check(R.n == len, "incomplete", "%s succeeds after %zu of %zu bytes", prodn[prod], R.n, len);
        mc_check(R.eofs == 1, "eof", "%s succeeds with %d ends of stream", prodn[prod], R.eofs);
        mc_check(!R.failed, "swallowed", "%s succeeds although the consumer failed", prodn[prod]);
        /* a FILE gets over a passing error by itself when its caller tries again */
        mc_check(errs == 0 || (prod == P_FILE && strcmp(hard_where, "read") == 0) || cons == C_FILE, "error-lost",
                 "%s succeeds although %s failed with errno %d", prodn[prod], hard_where, hard_errno);
    } else {
        mc_check(cork_error_occurred(), "no-error", "%s fails without an error", prodn[prod]);
        mc_check(errs > 0 || R.failed || eintrs > 0, "made-up-error", "%s fails though nothing failed", prodn[prod]);
        if (R.failed && R.fail_at >= 0) {
            mc_check(cork_error_code() == CORK_PARSE_ERROR, "consumer-error", "the consumer's error becomes %x (%s failed with errno %d)",
                     cork_error_code(), hard_where, hard_errno);
        } else {
            mc_check(errs > 0 || cons == C_FILE, "interrupted", "%s fails because a call was interrupted (error %x)", prodn[prod], cork_error_code());
            if (errs == 1 && !(cons == C_FILE && (eintrs > 0 || strcmp(hard_where, "write") == 0)))
                mc_check(cork_error_code() == (cork_error) hard_errno, "error-code", "%s failed with errno %d, the error is %x",
                         hard_where, hard_errno, cork_error_code());
        }
    }
    /* what the writing consumers put into the file */
    if (cons == C_BUFFER)
        mc_check(buf.size == R.n && (R.n == 0 || memcmp(buf.buf, R.got, R.n) == 0), "buffer", "the buffer holds %zu bytes, %zu were sent", buf.size, R.n);
    if (cons == C_FD || cons == C_PATH) {
        size_t  fl = file[DST].len;
        mc_check(fl <= R.n && memcmp(file[DST].data, file[SRC].data, fl) == 0, "written", "the file's %zu bytes are not the beginning of the stream", fl);
        if (!failed) mc_check(fl == len, "written", "the file holds %zu of %zu bytes after success", fl, len);
    }
    /* (a buffered FILE may keep data that it couldn't write, and try again; an unbuffered one
     * either takes everything or says that it didn't) */
    if (cons == C_FILE && !failed && (buffering == 0 || (!flush_failed && errs == 0 && eintrs == 0)))
        mc_check(file[DST].len == len && memcmp(file[DST].data, file[SRC].data, len) == 0, "written",
                 "the file holds %zu of %zu bytes after success", file[DST].len, len);
    if (c != NULL) { faulty = true; mc_set_budget(0); cork_stream_consumer_free(c); faulty = false; }
    for (i = 0; i < nfd; i++) {
        if (fds[i].by_library)
            mc_check(fds[i].closes == 1, "not-closed", "a file the library opened is closed %d times (%s)", fds[i].closes,
                     failed ? "after a failure" : "after success");
        else mc_check(fds[i].open, "closed-foreign", "a descriptor of the caller was closed");
    }
    mc_check(file_closed == 0, "closed-foreign", "the library closes its caller's FILE");
    mc_check(R.frees == 0, "freed", "the producer frees the consumer");
    if (in) fclose(in);
    if (out) fclose(out);
    cork_buffer_done(&buf);
    mc_check(track_live() == base, "leak", "%zu blocks leak", track_live() - base);
    h = mc_h(prod * 10 + cons, len);
    h = mc_h(h, rc); h = mc_h(h, errs); h = mc_h(h, eintrs); h = mc_h(h, shorts); h = mc_h(h, R.chunks); h = mc_h(h, file[DST].len); h = mc_h(h, fail_cfg);
    mc_state(h);
    mc_cover(failed ? (R.failed ? "failed in the consumer" : "failed in the producer") : eintrs ? "interrupted and complete" : shorts ? "short and complete" : "complete");
}
