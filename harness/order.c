/* C22: byte swaps and byte-order conversions. */
#include <libcork/core.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;
static const int  big_host = CORK_HOST_ENDIANNESS == CORK_BIG_ENDIAN;
/* bytes of a value, most significant first, found by arithmetic only */
static void msb(uint64_t v, int n, unsigned char *b) { int i; for (i = n - 1; i >= 0; i--, v >>= 8) b[i] = v; }
static uint64_t rev(uint64_t v, int n) { uint64_t r = 0; while (n--) { r = r << 8 | (v & 255); v >>= 8; } return r; }
static void mem_is(const void *p, uint64_t v, int n, bool big, const char *what)
{
    unsigned char  b[8];
    int  i;
    msb(v, n, b);
    for (i = 0; i < n; i++) mc_check(((const unsigned char *) p)[i] == b[big ? i : n - 1 - i], "memory-order", "%s of %#llx has bytes %s", what, (unsigned long long) v, mc_quote(p, n));
}
#define TEST(N, X) do { \
    struct { unsigned char a[8]; uint##N##_t v; unsigned char z[8]; }  s, s0; \
    uint##N##_t  x = (X), y, r = rev(x, N / 8); \
    y = CORK_SWAP_UINT##N(x); mc_check(y == r && x == (uint##N##_t) (X), "swap", "CORK_SWAP_UINT" #N "(%#llx) is %#llx", (unsigned long long) x, (unsigned long long) y); \
    mc_check((uint64_t) CORK_SWAP_UINT##N(x) == r, "swap-width", "CORK_SWAP_UINT" #N "(%#llx) leaves the type's range", (unsigned long long) x); \
    mc_check((uint##N##_t) CORK_SWAP_UINT##N(CORK_SWAP_UINT##N(x)) == x, "involution", "swapping %#llx twice", (unsigned long long) x); \
    y = CORK_UINT##N##_HOST_TO_BIG(x); mem_is(&y, x, N / 8, true, "CORK_UINT" #N "_HOST_TO_BIG"); \
    mc_check((uint##N##_t) CORK_UINT##N##_BIG_TO_HOST(y) == x, "inverse", "BIG_TO_HOST(HOST_TO_BIG(%#llx))", (unsigned long long) x); \
    y = CORK_UINT##N##_HOST_TO_LITTLE(x); mem_is(&y, x, N / 8, false, "CORK_UINT" #N "_HOST_TO_LITTLE"); \
    mc_check((uint##N##_t) CORK_UINT##N##_LITTLE_TO_HOST(y) == x, "inverse", "LITTLE_TO_HOST(HOST_TO_LITTLE(%#llx))", (unsigned long long) x); \
    memset(&s, 0x5a, sizeof s); s.v = x; s0 = s; \
    CORK_SWAP_IN_PLACE_UINT##N(s.v); s0.v = r; INPL("CORK_SWAP_IN_PLACE_UINT" #N); \
    s.v = s0.v = x; CORK_UINT##N##_HOST_TO_BIG_IN_PLACE(s.v); s0.v = big_host ? x : r; INPL("CORK_UINT" #N "_HOST_TO_BIG_IN_PLACE"); \
    s.v = s0.v = x; CORK_UINT##N##_BIG_TO_HOST_IN_PLACE(s.v); s0.v = big_host ? x : r; INPL("CORK_UINT" #N "_BIG_TO_HOST_IN_PLACE"); \
    s.v = s0.v = x; CORK_UINT##N##_HOST_TO_LITTLE_IN_PLACE(s.v); s0.v = big_host ? r : x; INPL("CORK_UINT" #N "_HOST_TO_LITTLE_IN_PLACE"); \
    s.v = s0.v = x; CORK_UINT##N##_LITTLE_TO_HOST_IN_PLACE(s.v); s0.v = big_host ? r : x; INPL("CORK_UINT" #N "_LITTLE_TO_HOST_IN_PLACE"); \
    mc_eval(1); \
} while (0)
#define INPL(what) mc_check(memcmp(&s, &s0, sizeof s) == 0, "in-place", what " of %#llx gives %#llx or changes its surroundings", (unsigned long long) x, (unsigned long long) s.v)
static void one128(const unsigned char *b)      /* b: most significant first */
{
    uint64_t  hi = 0, lo = 0;
    cork_u128  v, r, w;
    struct { unsigned char a[16]; cork_u128 v; unsigned char z[16]; }  s, s0;
    unsigned char  rb[16];
    int  i;
    for (i = 0; i < 8; i++) { hi = hi << 8 | b[i]; lo = lo << 8 | b[8 + i]; }
    for (i = 0; i < 16; i++) rb[i] = b[15 - i];
    v = cork_u128_from_64(hi, lo);
    mc_eval(1);
#define BY(val, bytes, k, what) do { cork_u128  v_ = (val); for (i = 0; i < 16; i++) mc_check(cork_u128_be8(v_, i) == (bytes)[i], k, what " of %s", mc_quote(b, 16)); } while (0)
    r = CORK_SWAP_UINT128(v);
    BY(r, rb, "swap", "CORK_SWAP_UINT128");
    w = CORK_SWAP_UINT128(r);
    BY(w, b, "involution", "swapping twice");
    w = CORK_UINT128_HOST_TO_BIG(v);
    mc_check(memcmp(&w, b, 16) == 0, "memory-order", "CORK_UINT128_HOST_TO_BIG of %s", mc_quote(b, 16));
    w = CORK_UINT128_BIG_TO_HOST(w); BY(w, b, "inverse", "BIG_TO_HOST(HOST_TO_BIG)");
    w = CORK_UINT128_HOST_TO_LITTLE(v);
    mc_check(memcmp(&w, rb, 16) == 0, "memory-order", "CORK_UINT128_HOST_TO_LITTLE of %s", mc_quote(b, 16));
    w = CORK_UINT128_LITTLE_TO_HOST(w); BY(w, b, "inverse", "LITTLE_TO_HOST(HOST_TO_LITTLE)");
#define INPL128(m, e) do { memset(&s, 0x5a, sizeof s); s.v = v; s0 = s; s0.v = (e); m(s.v); mc_check(memcmp(&s, &s0, sizeof s) == 0, "in-place", #m " of %s", mc_quote(b, 16)); } while (0)
    INPL128(CORK_SWAP_IN_PLACE_UINT128, r);
    INPL128(CORK_UINT128_HOST_TO_BIG_IN_PLACE, big_host ? v : r);
    INPL128(CORK_UINT128_BIG_TO_HOST_IN_PLACE, big_host ? v : r);
    INPL128(CORK_UINT128_HOST_TO_LITTLE_IN_PLACE, big_host ? r : v);
    INPL128(CORK_UINT128_LITTLE_TO_HOST_IN_PLACE, big_host ? r : v);
}
/* "any arbitrary expression": every binary operator between operands of every width */
#define EXPR(N, E) do { uint##N##_t  e_ = (uint##N##_t) (E), g_ = CORK_SWAP_UINT##N(E); mc_eval(1); \
    mc_check(g_ == (uint##N##_t) rev(e_, N / 8), "expression", "CORK_SWAP_UINT" #N "(" #E ") with a=%#llx b=%#llx is %#llx", (unsigned long long) a, (unsigned long long) b, (unsigned long long) g_); \
    g_ = CORK_UINT##N##_HOST_TO_BIG(E); mc_check(g_ == (big_host ? e_ : (uint##N##_t) rev(e_, N / 8)), "expression", "CORK_UINT" #N "_HOST_TO_BIG(" #E ") with a=%#llx b=%#llx", (unsigned long long) a, (unsigned long long) b); \
    g_ = CORK_UINT##N##_HOST_TO_LITTLE(E); mc_check(g_ == (big_host ? (uint##N##_t) rev(e_, N / 8) : e_), "expression", "CORK_UINT" #N "_HOST_TO_LITTLE(" #E ") with a=%#llx b=%#llx", (unsigned long long) a, (unsigned long long) b); \
    } while (0)
#define EXPRS(N) EXPR(N, a + b); EXPR(N, a - b); EXPR(N, a * 3u); EXPR(N, a | b); EXPR(N, a & b); EXPR(N, a ^ b); EXPR(N, a >> 3); EXPR(N, a << 3); EXPR(N, ~a); EXPR(N, -a); EXPR(N, a ? b : 5u); EXPR(N, a == b); EXPR(N, a && b); EXPR(N, (a, b))
#define EXPRT(T) do { for (i = 0; i < 9; i++) for (j = 0; j < 9; j++) { T  a = (T) ev[i], b = (T) ev[j]; EXPRS(16); EXPRS(32); EXPRS(64); } } while (0)
static const uint64_t  ev[] = { 0, 1, 0x1234, 0xffff, 0x10000, 0x12345678, 0xffffffffu, UINT64_C(0x123456789abcdef0), UINT64_C(0xffffffffffffffff) };
static const unsigned char  pat[] = { 0, 0xff, 0x80, 0x01, 0x7f, 0xa5 };
int mc_roots(void) { return 4; }
void mc_root_name(int r, char *b, size_t n) { static const char *s[] = { "16 bits", "32 and 64 bits", "128 bits", "expressions" }; snprintf(b, n, "%s", s[r]); }
void mc_run(int root)
{
    uint64_t  i, j;
    int  k;
    mc_crash_key("byte-order");
    mc_step();
    if (root == 0) {
        mc_log("every 16-bit value");
        for (i = 0; i < 65536; i++) TEST(16, i);
    } else if (root == 1) {
        /* every pair of bytes at every position, over three backgrounds; every byte pattern */
        int  p = mc_choose(8), q = mc_choose(8), bg = mc_choose(3);
        static const unsigned char  fill[] = { 0, 0xff, 0x3c };
        mc_log("bytes %d and %d over %02x", p, q, fill[bg]);
        for (i = 0; i < 256; i++) for (j = 0; j < 256; j += (p == q ? 256 : 1)) {
            uint64_t  v = 0;
            for (k = 0; k < 8; k++) v = v << 8 | (k == p ? i : k == q ? j : fill[bg]);
            TEST(64, v);
            if (p < 4 && q < 4) TEST(32, v >> 32);
        }
    } else if (root == 2) {
        unsigned char  b[16];
        int  bg = mc_choose(6), p = mc_choose(16), q = mc_choose(16);
        mc_log("bytes %d and %d over %02x", p, q, pat[bg]);
        memset(b, pat[bg], 16);
        for (i = 0; i < 256; i++) for (j = 0; j < 6; j++) { b[q] = pat[j]; b[p] = i; one128(b); }
        for (k = 0; k < 16; k++) b[k] = k * 17 + 3;
        one128(b);
    } else {
        mc_log("expressions");
        EXPRT(uint8_t); EXPRT(uint16_t); EXPRT(uint32_t); EXPRT(uint64_t); EXPRT(int16_t);
    }
    mc_state(mc_h(root, mc_exec_index()));
}
