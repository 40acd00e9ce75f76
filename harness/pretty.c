/* C06: pretty-printers against independent renderers. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
/* roots: 0-15 first byte of every string of up to 2 (thorough: 3) bytes; 16-25 short strings
 * over a small alphabet; 26-  long strings with one special byte */
static const char  alpha[] = { 'a', ' ', '\n', '\t', '"', '\\', 0, 0x7f, (char) 0xff, '~' };
#define NA 10
#define R1 16
#define R2 (R1 + NA)
#define MAXLEN MC_T(50, 81)
static const int  longs[] = { 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65537, 70000 };
#define R3 (R2 + MAXLEN + 1)
int mc_roots(void) { return R3 + 15; }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < R1) snprintf(b, n, "every string of up to %d bytes, first byte 0x%x0-0x%xf", MC_T(2, 3), r, r);
    else if (r < R2) snprintf(b, n, "strings over 10 characters starting with 0x%02x", (unsigned char) alpha[r - R1]);
    else if (r >= R3) snprintf(b, n, "strings of %d bytes", longs[r - R3]);
    else snprintf(b, n, "strings of %d bytes with one special byte", r - R2);
}
void mc_init(void) { track_install(); track_prime(); }

static char  want[9000000];
static size_t  wn;
static void w(const void *p, size_t n) { memcpy(want + wn, p, n); wn += n; }
static void wi(size_t n) { memset(want + wn, ' ', n); wn += n; }
static bool printable(unsigned char c) { return c >= 32 && c < 127; }
static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void hex(size_t ind, const unsigned char *s, size_t n)
{
    size_t  row, i;
    for (row = 0; row < n; row += 16) {
        size_t  k = n - row < 16 ? n - row : 16;
        if (row) { w("\n", 1); wi(ind); }
        for (i = 0; i < k; i++) { char h[8]; sprintf(h, "%02x ", s[row + i]); w(h, 3); }
        wi(48 - 3 * k);
        w(" |", 2);
        for (i = 0; i < k; i++) { char c = printable(s[row + i]) ? s[row + i] : '.'; w(&c, 1); }
        w("|", 1);
    }
}
static void multi(size_t ind, const unsigned char *s, size_t n)
{
    size_t  i;
    for (i = 0; i < n; i++) { w(s + i, 1); if (s[i] == '\n') wi(ind); }
}
static void binary(size_t ind, const unsigned char *s, size_t n)
{
    size_t  i;
    bool  nl = false, np = false;
    for (i = 0; i < n; i++) { if (!printable(s[i]) && !space(s[i])) np = true; if (s[i] == '\n') nl = true; }
    if (np) { w("(hex)\n", 6); wi(ind); hex(ind, s, n); mc_cover("binary: hex"); }
    else if (nl) { w("(multiline)\n", 12); wi(ind); multi(ind, s, n); mc_cover("binary: multiline"); }
    else { w(s, n); mc_cover("binary: raw"); }
}
/* back from the C string; false if it isn't one */
static bool decode(const char *s, size_t n, unsigned char *out, size_t *on)
{
    size_t  i, k = 0;
    if (n < 2 || s[0] != '"' || s[n - 1] != '"') return false;
    for (i = 1; i < n - 1; i++) {
        unsigned char  c = s[i];
        if (!printable(c) || c == '"') return false;
        if (c == '\\') {
            static const char  from[] = "\"\\fnrtvab", to[] = "\"\\\f\n\r\t\v\a\b";
            const char  *p;
            if (++i >= n - 1) return false;
            if (s[i] == 'x') {
                int  d, v = 0;
                for (d = 0; d < 2; d++) {
                    if (++i >= n - 1) return false;
                    c = s[i];
                    if (c >= '0' && c <= '9') c -= '0';
                    else if (c >= 'a' && c <= 'f') c -= 'a' - 10;
                    else if (c >= 'A' && c <= 'F') c -= 'A' - 10;
                    else return false;
                    v = v * 16 + c;
                }
                c = v;
                if (printable(c) || (c >= '\t' && c <= '\r')) return false;     /* has a better form */
            } else {
                p = strchr(from, s[i]);
                if (p == NULL || *p == 0) return false;
                c = to[p - from];
            }
        }
        out[k++] = c;
    }
    *on = k;
    return true;
}
static const char  prefixes[3][8] = { "", "x\0y", "old\n" };
static const size_t  plen[3] = { 0, 3, 4 };
static void one(const unsigned char *in, size_t n, size_t ind, int px)
{
    struct cork_buffer  b;
    static unsigned char  out[80000];
    size_t  on = 0, P = plen[px], live = track_live();
    int  f;
    unsigned char  *s = malloc(n);      /* exact size: reads past it are caught */
    const char  *q;
    memcpy(s, in, n);
    q = mc_quote(in, n);
    mc_eval(4);
    mc_crash_key("render");
    for (f = 0; f < 4; f++) {
        static const char  *names[] = { "c_string", "hex_dump", "multiline", "binary" };
        cork_buffer_init(&b);
        if (P) cork_buffer_append(&b, prefixes[px], P);
        if (px == 2) cork_buffer_ensure_size(&b, 300);
        wn = 0;
        switch (f) {
            case 0: cork_buffer_append_c_string(&b, (char *) s, n); break;
            case 1: hex(ind, s, n); cork_buffer_append_hex_dump(&b, ind, (char *) s, n); break;
            case 2: multi(ind, s, n); cork_buffer_append_multiline(&b, ind, (char *) s, n); break;
            case 3: binary(ind, s, n); cork_buffer_append_binary(&b, ind, (char *) s, n); break;
        }
        mc_check(b.size >= P && memcmp(b.buf ? b.buf : "", prefixes[px], P) == 0, "prefix", "%s of %s changed what was in the buffer", names[f], q);
        if (b.buf) mc_check(((char *) b.buf)[b.size] == 0, "nul", "%s of %s: no NUL after the contents", names[f], q);
        if (f == 0) {
            mc_check(decode((char *) b.buf + P, b.size - P, out, &on), "c-string-form", "C string of %s is %.*s", q, (int) (b.size - P), (char *) b.buf + P);
            mc_check(on == n && memcmp(out, s, n) == 0, "c-string", "C string of %s, %.*s, stands for other bytes", q, (int) (b.size - P), (char *) b.buf + P);
        } else
            mc_check(b.size - P == wn && (wn == 0 || memcmp((char *) b.buf + P, want, wn) == 0), names[f], "%s of %s with indent %zu is:\n%.*s\nexpected:\n%.*s", names[f], q, ind, (int) (b.size - P), b.buf ? (char *) b.buf + P : "", (int) wn, want);
        cork_buffer_done(&b);
    }
    free(s);
    mc_check(track_live() == live, "leak", "blocks left");
}
static const size_t  indents[] = { 0, 1, 4, 17, 60 };
void mc_run(int root)
{
    static unsigned char  s[80000];
    int  i, j, k;
    if (root < R1) {
        s[0] = root * 16 + mc_choose(16);
        mc_log("all strings starting with 0x%02x", s[0]);
        if (s[0] == 0) one(s, 0, 2, 0);
        one(s, 1, 2, 0);
        for (i = 0; i < 256; i++) {
            s[1] = i;
            one(s, 2, 2, i % 3);
            mc_step();
            if (mc_thorough) for (j = 0; j < 256; j++) { s[2] = j; one(s, 3, 2, j % 3); }
        }
    } else if (root < R2) {
        int  L = MC_T(5, 6), len = 1 + mc_choose(L), ind = indents[mc_choose(3)];
        long  c, total = 1;
        for (i = 1; i < len; i++) total *= NA;
        s[0] = alpha[root - R1];
        mc_log("all strings of %d characters, indent %d", len, ind);
        for (c = 0; c < total; c++) {
            long  x = c;
            for (i = 1; i < len; i++, x /= NA) s[i] = alpha[x % NA];
            one(s, len, ind, c % 3);
            mc_step();
        }
    } else if (root >= R3) {
        int  n = longs[root - R3], kind = mc_choose(6);
        static const char  *fill[] = { "abc", "\n", "a\nb", "\"\\", "\0\1\2\x7f\xff\x80", "\t x" };
        static const int  fl[] = { 3, 1, 3, 2, 6, 3 };
        for (i = 0; i < n; i++) s[i] = fill[kind][i % fl[kind]];
        one(s, n, 3, kind % 3);
        s[n - 1] = 1; one(s, n, 0, 1);
        s[n - 1] = '\n'; one(s, n, 40, 2);
        s[n / 2] = 0; s[n - 1] = 'e'; one(s, n, 1, 0);
        mc_step();
    } else {
        static const unsigned char  spec[] = { 'z', '\n', 0, 0x1f, 0x7f, 0x80, '\r', '"' };
        int  n = root - R2, px = mc_choose(3), in = mc_choose(5);
        mc_log("%d bytes, indent %zu, prefix %d", n, indents[in], px);
        for (i = 0; i < (n ? n : 1); i++)
            for (k = 0; k < 8; k++) {
                for (j = 0; j < n; j++) s[j] = "abcdefghijklmnopqrstuvwxyz !~ABCD"[(j * 7 + n) % 33];
                s[i] = spec[k];
                one(s, n, indents[in], px);
                mc_step();
            }
        for (k = 0; k < 8; k++) { memset(s, spec[k], n); one(s, n, indents[in], px); }
    }
    mc_state(mc_h(root, s[0]));
}
