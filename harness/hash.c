/* C21: hashes against an independent MurmurHash3 (byte-at-a-time), and the cork-hash tool. */
#include <getopt.h>
#include <sys/wait.h>
#include <unistd.h>
#include <libcork/core.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

/* ---- oracle ---- */
static uint32_t le32(const unsigned char *p, int n) { uint32_t r = 0; while (n--) r = r << 8 | p[n]; return r; }
static uint64_t le64(const unsigned char *p, int n) { uint64_t r = 0; while (n--) r = r << 8 | p[n]; return r; }
static uint32_t rl32(uint32_t x, int r) { return x << r | x >> (32 - r); }
static uint64_t rl64(uint64_t x, int r) { return x << r | x >> (64 - r); }
static uint32_t mm3_32(uint32_t h, const unsigned char *p, size_t len)
{
    size_t  i;
    for (i = 0; i < len; i += 4) {
        int  n = len - i < 4 ? len - i : 4;
        uint32_t  k = le32(p + i, n);
        k = rl32(k * 0xcc9e2d51u, 15) * 0x1b873593u;
        h ^= k;
        if (n == 4) h = rl32(h, 13) * 5 + 0xe6546b64u;
    }
    h ^= len;
    h = (h ^ h >> 16) * 0x85ebca6bu;
    h = (h ^ h >> 13) * 0xc2b2ae35u;
    return h ^ h >> 16;
}
static uint64_t fm(uint64_t k) { k = (k ^ k >> 33) * UINT64_C(0xff51afd7ed558ccd); k = (k ^ k >> 33) * UINT64_C(0xc4ceb9fe1a85ec53); return k ^ k >> 33; }
static void mm3_128(uint64_t *h, const unsigned char *p, size_t len)
{
    const uint64_t  c1 = UINT64_C(0x87c37b91114253d5), c2 = UINT64_C(0x4cf5ad432745937f);
    uint64_t  a = h[0], b = h[1];
    size_t  i;
    for (i = 0; i < len; i += 16) {
        size_t  n = len - i < 16 ? len - i : 16;
        uint64_t  k1 = le64(p + i, n < 8 ? n : 8), k2 = n > 8 ? le64(p + i + 8, n - 8) : 0;
        k1 = rl64(k1 * c1, 31) * c2;
        k2 = rl64(k2 * c2, 33) * c1;
        a ^= k1;
        if (n == 16) a = (rl64(a, 27) + b) * 5 + 0x52dce729;
        b ^= k2;
        if (n == 16) b = (rl64(b, 31) + a) * 5 + 0x38495ab5;
    }
    a ^= len; b ^= len;
    a += b; b += a;
    a = fm(a); b = fm(b);
    a += b; b += a;
    h[0] = a; h[1] = b;
}
static void mm3_x86_128(uint32_t *h, const unsigned char *p, size_t len)
{
    static const uint32_t  c[4] = { 0x239b961bu, 0xab0e9789u, 0x38b34ae5u, 0xa1e38b93u }, add[4] = { 0x561ccd1bu, 0x0bcaa747u, 0x96cd1c35u, 0x32ac3b17u };
    static const int  r1[4] = { 15, 16, 17, 18 }, r2[4] = { 19, 17, 15, 13 };
    size_t  i;
    int  j;
    for (i = 0; i < len; i += 16) {
        size_t  n = len - i < 16 ? len - i : 16;
        for (j = 0; j < 4; j++) {
            uint32_t  k = n > 4u * j ? le32(p + i + 4 * j, n - 4 * j < 4 ? n - 4 * j : 4) : 0;
            h[j] ^= rl32(k * c[j], r1[j]) * c[(j + 1) % 4];
            if (n == 16) h[j] = (rl32(h[j], r2[j]) + h[(j + 1) % 4]) * 5 + add[j];
        }
    }
    for (j = 0; j < 4; j++) h[j] ^= len;
    h[0] += h[1]; h[0] += h[2]; h[0] += h[3];
    for (j = 1; j < 4; j++) h[j] += h[0];
    for (j = 0; j < 4; j++) { h[j] = (h[j] ^ h[j] >> 16) * 0x85ebca6bu; h[j] = (h[j] ^ h[j] >> 13) * 0xc2b2ae35u; h[j] ^= h[j] >> 16; }
    h[0] += h[1]; h[0] += h[2]; h[0] += h[3];
    for (j = 1; j < 4; j++) h[j] += h[0];
}
static const uint32_t  seeds[] = { 0, 1, 0x80000000u, 0xffffffffu, 0xd4a130d8u };
static const uint64_t  bseeds[][2] = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { UINT64_C(0xffffffffffffffff), UINT64_C(0xffffffffffffffff) }, { UINT64_C(0x8000000000000000), 7 }, { UINT64_C(0x0123456789abcdef), UINT64_C(0xfedcba9876543210) } };
static unsigned char  *arena;     /* ends at the end of an allocation */
#define ARENA 512
static void check_at(const unsigned char *p, size_t n, const unsigned char *orig)
{
    int  i;
    uint32_t  first[5];
    const unsigned char  *q;
    for (i = 0; i < 5; i++) {
        uint32_t  w = mm3_32(seeds[i], orig, n), g = cork_stable_hash_buffer(seeds[i], p, n), f;
        mc_eval(3);
        mc_check(g == w, "stable", "the stable hash of %s with seed %#x is %#x, expected %#x", mc_quote(orig, n), seeds[i], g, w);
        first[i] = cork_hash_buffer(seeds[i], p, n);
        q = p == orig ? p : orig;
        f = cork_hash_buffer(seeds[i], q, n);
        mc_check(f == first[i], "equal-content", "the hash of %s depends on where it is", mc_quote(orig, n));
        mc_check(cork_hash_buffer(seeds[i], p, n) == first[i], "deterministic", "the hash of %s changes from call to call", mc_quote(orig, n));
    }
    for (i = 0; i < 6; i++) {
        uint64_t  h[2] = { bseeds[i][0], bseeds[i][1] };
        cork_big_hash  s = { cork_u128_from_64(h[0], h[1]) }, g, w;
        mc_eval(1);
        mm3_128(h, orig, n);
        g = cork_big_hash_buffer(s, p, n);
        if (sizeof(void *) == 8)
            mc_check(cork_u128_be64(g.u128, 0) == h[0] && cork_u128_be64(g.u128, 1) == h[1], "big", "the big hash of %s (seed %d) is %016llx%016llx, expected %016llx%016llx", mc_quote(orig, n), i, (unsigned long long) cork_u128_be64(g.u128, 0), (unsigned long long) cork_u128_be64(g.u128, 1), (unsigned long long) h[0], (unsigned long long) h[1]);
        /* the variants for other processors */
        {
            cork_big_hash  x;
            uint32_t  x4[4] = { bseeds[i][0] >> 32, bseeds[i][0], bseeds[i][1] >> 32, bseeds[i][1] }, r;
            const unsigned char  *src = p;
            cork_murmur_hash_x86_128(s, src, n, &x);
            mm3_x86_128(x4, orig, n);
            mc_check(cork_u128_be32(x.u128, 0) == x4[0] && cork_u128_be32(x.u128, 1) == x4[1] && cork_u128_be32(x.u128, 2) == x4[2] && cork_u128_be32(x.u128, 3) == x4[3], "x86-128", "the 32-bit variant of the big hash of %s (seed %d) is wrong", mc_quote(orig, n), i);
            cork_murmur_hash_x86_32((uint32_t) bseeds[i][0], src, n, &r);
            mc_check(r == mm3_32((uint32_t) bseeds[i][0], orig, n), "x86-32", "the 32-bit variant of the hash of %s (seed %d) is wrong", mc_quote(orig, n), i);
        }
        w = cork_big_hash_buffer(s, orig, n);
        mc_check(cork_big_hash_equal(g, w), "big-equal", "equal big hashes compare different");
        w.u128 = cork_u128_from_64(cork_u128_be64(g.u128, 0) ^ (UINT64_C(1) << i * 9), cork_u128_be64(g.u128, 1));
        mc_check(!cork_big_hash_equal(g, w), "big-equal", "different big hashes compare equal");
        w.u128 = cork_u128_from_64(cork_u128_be64(g.u128, 0), cork_u128_be64(g.u128, 1) ^ (UINT64_C(1) << i * 9));
        mc_check(!cork_big_hash_equal(g, w), "big-equal", "different big hashes compare equal");
    }
}
static void one(const unsigned char *b, size_t n, bool aligns)
{
    int  a;
    /* flush against the end of the block, then at every alignment with changing surroundings */
    memcpy(arena + ARENA - n, b, n);
    check_at(arena + ARENA - n, n, b);
    if (aligns) for (a = 0; a < 16; a++) {
        memset(arena, 0x11 * a + 7, ARENA);
        memcpy(arena + 64 + a, b, n);
        check_at(arena + 64 + a, n, b);
    }
}
/* ---- the tool ---- */
int cork_hash_main(int argc, char **argv);
static char  *t_argv[8];
static int  t_argc, t_fd;
static void tool(void *ud)
{
    dup2(t_fd, 1);
    close(2);
    optind = 1;
    exit(cork_hash_main(t_argc, t_argv));
}
static int run_tool(char *out, size_t n)
{
    int  p[2], st;
    ssize_t  r;
    size_t  got = 0;
    if (pipe(p) < 0) mc_internal("pipe");
    t_fd = p[1];
    st = mc_in_child_raw(tool, NULL);
    close(p[1]);
    while (got < n - 1 && (r = read(p[0], out + got, n - 1 - got)) > 0) got += r;
    out[got] = 0;
    close(p[0]);
    return st;
}
static void tool_case(int opt, const char *s)
{
    static const char *opts[] = { NULL, "-s", "--stable", "-f", "--fastest", "-b", "--big", "-bs" };
    char  out[200], want[200];
    int  st;
    t_argc = 0;
    t_argv[t_argc++] = "cork-hash";
    if (opts[opt]) t_argv[t_argc++] = (char *) opts[opt];
    if (s[0] == '-') t_argv[t_argc++] = "--";
    t_argv[t_argc++] = (char *) s;
    t_argv[t_argc] = NULL;
    mc_eval(1);
    st = run_tool(out, sizeof out);
    if (opt <= 2 || opt == 7) sprintf(want, "0x%08x\n", mm3_32(0, (void *) s, strlen(s)));
    else if (opt <= 4) sprintf(want, "0x%08x\n", cork_hash_buffer(0, s, strlen(s)));
    else { uint64_t  h[2] = { 0, 0 }; mm3_128(h, (void *) s, strlen(s)); sprintf(want, "%016llx%016llx\n", (unsigned long long) h[0], (unsigned long long) h[1]); }
    mc_check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "tool-status", "cork-hash %s %s fails (status %#x)", opts[opt] ? opts[opt] : "", mc_quote(s, strlen(s)), st);
    mc_check(strcmp(out, want) == 0, "tool", "cork-hash %s %s prints %s, expected %s", opts[opt] ? opts[opt] : "", mc_quote(s, strlen(s)), out, want);
}
static const unsigned char  alpha[] = { 0, 1, 0x7f, 0x80, 0xff, 'a' };
#define RL  80        /* lengths 0..79 */
#define RS  (RL + 6)
#define RT  (RS + 8)
/* every length up to NLEN, in slices of SLEN; lengths around powers of two up to 2^24 */
#define NLEN  4608
#define SLEN  128
#define RLEN  (RT + 1)
#define RPOW  (RLEN + NLEN / SLEN)
#define POW0  12
static unsigned char  *longbuf;
static void long_one(size_t n, uint32_t seed)
{
    unsigned char  *p = longbuf + (n & 15) * 3;
    uint64_t  h[2] = { seed * UINT64_C(0x9e3779b97f4a7c15), ~(uint64_t) seed };
    cork_big_hash  s = { cork_u128_from_64(h[0], h[1]) }, g;
    uint32_t  w = mm3_32(seed, p, n), f;
    mc_eval(4);
    mc_check(cork_stable_hash_buffer(seed, p, n) == w, "stable", "the stable hash of %zu bytes is wrong", n);
    mm3_128(h, p, n);
    g = cork_big_hash_buffer(s, p, n);
    if (sizeof(void *) == 8) mc_check(cork_u128_be64(g.u128, 0) == h[0] && cork_u128_be64(g.u128, 1) == h[1], "big", "the big hash of %zu bytes is wrong", n);
    {
        cork_big_hash  x;
        uint32_t  x4[4] = { seed, 7, ~seed, seed * 3 }, r;
        s.u128 = cork_u128_from_32(x4[0], x4[1], x4[2], x4[3]);
        cork_murmur_hash_x86_128(s, p, n, &x);
        mm3_x86_128(x4, p, n);
        mc_check(cork_u128_be32(x.u128, 0) == x4[0] && cork_u128_be32(x.u128, 1) == x4[1] && cork_u128_be32(x.u128, 2) == x4[2] && cork_u128_be32(x.u128, 3) == x4[3], "x86-128", "the 32-bit variant of the big hash of %zu bytes is wrong", n);
        cork_murmur_hash_x86_32(seed, p, n, &r);
        mc_check(r == w, "x86-32", "the 32-bit variant of the hash of %zu bytes is wrong", n);
    }
    /* the fast hash is whatever it is, but the same elsewhere, and each byte counts */
    f = cork_hash_buffer(seed, p, n);
    p[-1] ^= 0x5a; p[n] ^= 0xa5;
    mc_check(cork_hash_buffer(seed, p, n) == f, "purity", "the hash of %zu bytes depends on what is around them", n);
    p[-1] ^= 0x5a; p[n] ^= 0xa5;
    if (n) {
        static const int  den[] = { 0, 1, 3, 5, 7, 8 };
        int  i;
        for (i = 0; i < 6; i++) {
            size_t  at = i == 5 ? n - 1 : n * den[i] / 8;
            p[at] ^= 1;
            mc_check(cork_hash_buffer(seed, p, n) != f, "ignored", "byte %zu of %zu doesn't count for the hash", at, n);
            p[at] ^= 1;
        }
    }
}
int mc_roots(void) { return RPOW + MC_T(24, 27) - POW0 + 1; }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < RL) snprintf(b, n, "%d bytes", r);
    else if (r < RS) snprintf(b, n, "short strings over an alphabet, starting with %02x", alpha[r - RL]);
    else if (r >= RPOW) snprintf(b, n, "about 2^%d bytes", r - RPOW + POW0);
    else if (r >= RLEN) snprintf(b, n, "%d to %d bytes", (r - RLEN) * SLEN, (r - RLEN + 1) * SLEN - 1);
    else snprintf(b, n, "cork-hash and variables, part %d", r - RS);
}
void mc_init(void) { arena = malloc(ARENA); }
void mc_run(int root)
{
    unsigned char  b[512];
    int  i, j;
    mc_crash_key("hash");
    mc_step();
    if (root >= RLEN) {
        size_t  k, c;
        int  sd = mc_choose(5);
        c = root >= RPOW ? (size_t) 1 << (root - RPOW + POW0) : 0;
        longbuf = malloc((c ? c + 200 : NLEN) + 200);
        if (longbuf == NULL) mc_internal("memory");
        longbuf += 8;
        for (k = 0; k < (c ? c + 180 : NLEN + 180); k++) longbuf[k] = (k * 2654435761u) >> 13;
        mc_log("lengths %s %zu", c ? "around" : "from", c ? c : (size_t) (root - RLEN) * SLEN);
        if (c) for (k = c - (c > 1 << 18 ? 2 : 17); k <= c + (c > 1 << 18 ? 2 : 17); k++) long_one(k, seeds[sd]);
        else for (k = 0; k < SLEN; k++) long_one((root - RLEN) * SLEN + k, seeds[sd]);
        free(longbuf - 8);
    } else if (root < RL) {
        int  n = root, pos = mc_choose(n ? n : 1);
        mc_log("%d bytes, every value of byte %d", n, pos);
        for (j = 0; j < 2; j++) {
            for (i = 0; i < n; i++) b[i] = j ? 0xff : i * 37 + 11;
            for (i = 0; i < 256; i += 1) { if (n) b[pos] = i; one(b, n, i % 32 == (pos & 31)); }
        }
    } else if (root < RS) {
        int  len = 1 + mc_choose(MC_T(6, 8)), k;
        long  c, total = 1;
        for (i = 1; i < len; i++) total *= 6;
        b[0] = alpha[root - RL];
        mc_log("all strings of %d", len);
        for (c = 0; c < total; c++) {
            long  x = c;
            for (k = 1; k < len; k++, x /= 6) b[k] = alpha[x % 6];
            one(b, len, false);
        }
    } else if (root < RT) {
        static const char *strs[] = { "", "a", "struct my_type", "-x", "--", "a b", "\xff\xfe\xfd\x80", "0123456789abcdef", "0123456789abcdef0123456789abcde", "%s%n", "\n" };
        int  k = mc_choose(11);
        mc_log("cork-hash, option %d, string %d", root - RS, k);
        tool_case(root - RS, strs[k]);
        if (root == RS && k == 0) {
            char  s[40], out[200];
            for (i = 0; i < 34; i++) { s[i] = 'A' + i; s[i + 1] = 0; tool_case(0, s); }
            /* no string, or several: nothing is printed */
            for (i = 1; i < 4; i += 2) {
                int  st;
                t_argv[0] = "cork-hash"; t_argv[1] = "x"; t_argv[2] = "y"; t_argv[i] = NULL; t_argc = i;
                st = run_tool(out, sizeof out);
                mc_check(WIFEXITED(st) && WEXITSTATUS(st) != 0 && out[0] == 0, "tool-usage", "cork-hash with %d strings prints %s", i - 1, out);
            }
        }
    } else {
        uint8_t  v8; uint16_t  v16; uint32_t  v32; uint64_t  v64; double  d; struct { uint32_t a, b; char c[4]; }  st; char  arr[7];
        cork_big_hash  bs = { cork_u128_from_64(3, 4) };
        mc_log("variables");
#define VAR(v) do { mc_eval(3); \
    mc_check(cork_hash_variable(99, v) == cork_hash_buffer(99, &v, sizeof v), "variable", "cork_hash_variable of " #v); \
    mc_check(cork_stable_hash_variable(99, v) == mm3_32(99, (void *) &v, sizeof v), "variable", "cork_stable_hash_variable of " #v); \
    mc_check(cork_big_hash_equal(cork_big_hash_variable(bs, v), cork_big_hash_buffer(bs, &v, sizeof v)), "variable", "cork_big_hash_variable of " #v); } while (0)
        for (i = 0; i < 4096; i++) {
            v8 = i * 31; v16 = i * 40503u; v32 = i * 2654435761u; v64 = (uint64_t) i * UINT64_C(0x9e3779b97f4a7c15); d = i / 7.0;
            memset(&st, i, sizeof st); st.a = v32;
            memset(arr, i * 3, sizeof arr);
            VAR(v8); VAR(v16); VAR(v32); VAR(v64); VAR(d); VAR(st); VAR(arr);
        }
    }
    mc_state(mc_h(root, mc_exec_index()));
}
