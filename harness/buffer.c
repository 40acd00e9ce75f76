/* C05: resizable buffers against a byte string. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include <stdarg.h>
#include <stdlib.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
#define MAXS 400000
static unsigned char  m[MAXS], src[MAXS];
static size_t  n;
static bool  large;         /* few lengths, but large ones */
int mc_roots(void) { return 32; }
void mc_root_name(int r, char *b, size_t s) { snprintf(b, s, "first operation %d, %s%s", r >> 1 & 7, r & 16 ? "large, " : "", r & 1 ? "new" : "init"); }
void mc_init(void) { track_install(); mc_unpruned = 2; track_prime(); track_strict = false; }

static struct cork_buffer  *b;
static void verify(const char *what, bool nul)
{
    mc_check(b->size == n, "size", "%s: size is %zu, expected %zu", what, b->size, n);
    if (n) mc_check(memcmp(b->buf, m, n) == 0, "contents", "%s: contents %s, expected %s", what, mc_quote(b->buf, n), mc_quote(m, n));
    if (nul) mc_check(b->buf != NULL && ((char *) b->buf)[n] == 0, "terminator", "%s: no NUL after the content", what);
    if (n) {
        mc_check(cork_buffer_byte(b, n - 1) == m[n - 1] && cork_buffer_byte(b, 0) == m[0], "byte", "%s: cork_buffer_byte", what);
        mc_check(cork_buffer_char(b, n / 2) == (char) m[n / 2], "char", "%s: cork_buffer_char", what);
    }
}
static void va_set(bool app, const char *fmt, ...)
{
    va_list  ap;
    va_start(ap, fmt);
    if (app) cork_buffer_append_vprintf(b, fmt, ap); else cork_buffer_vprintf(b, fmt, ap);
    va_end(ap);
}
static size_t pick_len(void)
{
    size_t  room = b->allocated_size > b->size ? b->allocated_size - b->size : 0;
    size_t  all = b->allocated_size;
    size_t  cand[10], u[10];
    int  i, j, k = 0;
    if (large) {
        static const size_t  l[] = { 70001, 1, 4096, 1023, 1024, 65535 };
        return l[mc_choose(MC_T(4, 6))];
    }
    cand[0] = 0; cand[1] = 1; cand[2] = room > 1 ? room - 2 : 3; cand[3] = room ? room - 1 : 7; cand[4] = room; cand[5] = room + 1;
    cand[6] = all ? all - 1 : 2; cand[7] = all; cand[8] = all * 2; cand[9] = all + 1;
    for (i = 0; i < 10; i++) {
        for (j = 0; j < k; j++) if (u[j] == cand[i]) break;
        if (j == k && cand[i] < 600) u[k++] = cand[i];
    }
    return u[mc_choose(k)];
}
static void make(size_t len, bool text, int salt)
{
    size_t  i;
    for (i = 0; i < len; i++) {
        src[i] = (i * 7 + salt * 13 + 1) & 0xff;
        if (text) src[i] = 33 + src[i] % 90; else if ((i + salt) % 3 == 0) src[i] = 0;
    }
    src[len] = 0;
    if (text) for (i = 0; i < len; i++) if (src[i] == '%') src[i] = '+';
}
static void app(const void *p, size_t len) { memcpy(m + n, p, len); n += len; m[n] = 0; }

void mc_run(int root)
{
    struct cork_buffer  st = CORK_BUFFER_INIT(), other = CORK_BUFFER_INIT();
    int  d, depth = root & 16 ? 2 : MC_T(4, 5), end;
    const int  first = root >> 1 & 7;
    bool  heap = root & 1, pruned = false;
    size_t  base = track_live(), len, i;
    n = 0;
    large = root & 16;
    if (heap) b = cork_buffer_new(); else { b = &st; cork_buffer_init(b); }
    mc_check(b->size == 0, "init", "a new buffer is not empty");
    for (d = 0; d < depth; d++) {
        int  op = d == 0 ? first : mc_choose(8), v;
        uint64_t  h = heap;
        mc_step();
        switch (op) {
            case 0: case 1:         /* bytes */
                len = pick_len(); make(len, false, d);
                mc_log("%s(%zu bytes)", op ? "append" : "set", len);
                if (op) cork_buffer_append(b, src, len); else { cork_buffer_set(b, src, len); n = 0; }
                app(src, len); verify(op ? "append" : "set", true);
                break;
            case 2: case 3:         /* strings */
                len = pick_len(); make(len, true, d);
                v = mc_choose(3);
                if (op == 2) n = 0;
                mc_log("%s_%s(%zu)", op == 3 ? "append" : "set", v ? "literal" : "string", len);
                if (v == 0) { if (op == 3) cork_buffer_append_string(b, (char *) src); else cork_buffer_set_string(b, (char *) src); app(src, len); }
                else if (v == 1) { if (op == 3) cork_buffer_append_literal(b, "a\0b"); else cork_buffer_set_literal(b, "a\0b"); app("a\0b", 3); }
                else { if (op == 3) cork_buffer_append_literal(b, ""); else cork_buffer_set_literal(b, ""); }
                verify("string", true);
                break;
            case 4: case 5:         /* formatted */
                len = pick_len(); make(len, true, d);
                v = mc_choose(6);
                if (op == 4) n = 0;
                mc_log("%sprintf(variant %d, %zu)", op == 5 ? "append_" : "", v, len);
                switch (v) {
                    case 0: if (op == 5) cork_buffer_append_printf(b, "%s", src); else cork_buffer_printf(b, "%s", src); app(src, len); break;
                    case 1: va_set(op == 5, "%s", src); app(src, len); break;
                    case 2: {
                        static char  t[71000];
                        int  l = sprintf(t, "%d:%s:%c%5.1f", -12, (char *) src, 0, 3.25);
                        if (op == 5) cork_buffer_append_printf(b, "%d:%s:%c%5.1f", -12, src, 0, 3.25);
                        else cork_buffer_printf(b, "%d:%s:%c%5.1f", -12, src, 0, 3.25);
                        app(t, l);
                        break; }
                    case 3: if (op == 5) cork_buffer_append_printf(b, "%*s", (int) len, ""); else cork_buffer_printf(b, "%*s", (int) len, "");
                        memset(src, ' ', len); app(src, len); break;
                    case 4:             /* the C library refuses to format this */
                        va_set(op == 5, "%s%lc", src, 0x7fffffff);
                        mc_cover("formatting fails");
                        break;
                    case 5: va_set(op == 5, "%s", ""); break;
                }
                verify("printf", true);
                break;
            case 6: {                 /* copies, indentation */
                v = mc_choose(3);
                len = pick_len(); make(len, false, d);
                cork_buffer_set(&other, src, len);
                mc_log("%s(%zu)", v == 0 ? "copy" : v == 1 ? "append_copy" : "append_indent", len);
                if (v == 0) { cork_buffer_copy(b, &other); n = 0; app(src, len); }
                else if (v == 1) { cork_buffer_append_copy(b, &other); app(src, len); }
                else { cork_buffer_append_indent(b, len); memset(src, ' ', len); app(src, len); }
                if (v < 2) mc_check(other.size == len && memcmp(other.buf, src, len) == 0, "copy-source", "copy changed its source");
                verify("copy", true);
                break; }
            case 7:
                v = mc_choose(7);
                if (v == 0) { mc_log("clear"); cork_buffer_clear(b); n = 0; verify("clear", b->buf != NULL); }
                else if (v < 5) {
                    size_t  want = v == 1 ? 0 : v == 2 ? (n ? n - 1 : 0) : v == 3 ? n : n + 1;
                    bool  had = b->buf != NULL && ((char *) b->buf)[n] == 0;
                    mc_log("truncate(%zu) of %zu", want, n);
                    cork_buffer_truncate(b, want);
                    if (want < n) { n = want; had = true; }
                    verify("truncate", had);
                } else {
                    bool  had = b->buf != NULL && ((char *) b->buf)[n] == 0 && n > 0;
                    len = pick_len();
                    mc_log("ensure_size(%zu)", len + (v == 6 ? n : 0));
                    cork_buffer_ensure_size(b, len + (v == 6 ? n : 0));
                    mc_check(b->allocated_size >= len, "ensure-size", "ensure_size(%zu) left %zu", len, b->allocated_size);
                    memset((char *) b->buf + n + 1, 'Z', b->allocated_size > n ? b->allocated_size - n - 1 : 0);
                    verify("ensure_size", had);
                }
                break;
        }
        /* equality */
        {
            struct cork_buffer  e = { m, n, n + 1 };
            mc_check(cork_buffer_equal(b, &e) && cork_buffer_equal(&e, b) && cork_buffer_equal(b, b), "equal", "equal contents compare unequal");
            if (n) {
                e.size = n - 1;
                mc_check(!cork_buffer_equal(b, &e) && !cork_buffer_equal(&e, b), "equal", "prefix compares equal");
                e.size = n; m[n - 1] ^= 1;
                mc_check(!cork_buffer_equal(b, &e), "equal", "different last byte compares equal");
                m[n - 1] ^= 1; m[0] ^= 128;
                mc_check(!cork_buffer_equal(b, &e), "equal", "different first byte compares equal");
                m[0] ^= 128;
            }
        }
        h = mc_h(mc_h(h, b->size), b->allocated_size);
        h = mc_h(h, b->buf == NULL ? 2 : ((char *) b->buf)[b->size == b->allocated_size ? 0 : b->size] == 0);
        if (mc_seen(h, depth - d - 1)) { pruned = true; break; }
    }
    /* the ways out */
    cork_buffer_done(&other);
    mc_check(other.size == 0, "done", "size after done");
    end = pruned ? 0 : mc_choose(heap ? 4 : 2);   /* no choice after a pruned state */
    if (end == 0) {
        if (heap) cork_buffer_free(b); else cork_buffer_done(b);
    } else if (end == 1) {
        struct cork_stream_consumer  *c = cork_buffer_to_stream_consumer(b);
        mc_log("stream consumer");
        mc_check(cork_stream_consumer_data(c, "ab\0", 3, true) == 0, "consumer", "data failed");
        app("ab\0", 3);
        verify("consumer", true);
        mc_check(cork_stream_consumer_data(c, "", 0, false) == 0 && cork_stream_consumer_data(c, "c", 1, false) == 0, "consumer", "data failed");
        app("c", 1);
        mc_check(cork_stream_consumer_eof(c) == 0, "consumer", "eof failed");
        verify("consumer", true);
        cork_stream_consumer_free(c);
        verify("consumer freed", true);
        if (heap) cork_buffer_free(b); else cork_buffer_done(b);
    } else if (end == 2) {
        struct cork_managed_buffer  *mb = cork_buffer_to_managed_buffer(b), *m2;
        struct cork_slice  s;
        mc_log("managed buffer");
        mc_check(mb != NULL && mb->size == n && (n == 0 || memcmp(mb->buf, m, n) == 0), "managed", "managed buffer has other contents");
        m2 = cork_managed_buffer_ref(mb);
        if (n) {
            mc_check(cork_managed_buffer_slice(&s, m2, n / 2, n - n / 2) == 0, "managed", "slicing failed");
            cork_managed_buffer_unref(m2); cork_managed_buffer_unref(mb);
            mc_check(s.size == n - n / 2 && memcmp(s.buf, m + n / 2, s.size) == 0, "managed", "slice has other contents");
            cork_slice_finish(&s);
        } else { cork_managed_buffer_unref(m2); cork_managed_buffer_unref(mb); }
    } else {
        struct cork_slice  s, s2;
        int  rc = cork_buffer_to_slice(b, &s);
        mc_log("slice");
        mc_check(rc == 0, "to-slice", "to_slice of %zu bytes failed", n);
        mc_check(s.size == n && (n == 0 || memcmp(s.buf, m, n) == 0), "to-slice", "slice has other contents");
        mc_check(cork_slice_copy_offset(&s2, &s, 0) == 0, "to-slice", "copying the slice failed");
        cork_slice_finish(&s);
        mc_check(s2.size == n && (n == 0 || memcmp(s2.buf, m, n) == 0), "to-slice", "copied slice has other contents");
        cork_slice_finish(&s2);
    }
    (void) i;
    cork_error_clear();
    mc_check(track_live() == base, "leak", "%zu blocks left", track_live() - base);
}
