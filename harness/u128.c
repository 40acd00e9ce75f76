/* C19: 128-bit integers against arithmetic on 16-bit limbs. Built once with the compiler's
 * 128-bit type and once with the portable code. */
#include <libcork/core.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;
#if defined(WANT_PORTABLE) && CORK_U128_HAVE_U128
#error "the portable code isn't selected"
#endif
typedef struct { uint16_t l[8]; }  big;        /* l[0] least significant */
static big b_of(uint64_t hi, uint64_t lo)
{
    big  r;
    int  i;
    for (i = 0; i < 4; i++) { r.l[i] = lo >> 16 * i; r.l[4 + i] = hi >> 16 * i; }
    return r;
}
static big b_add(big a, big b) { big r; int i; uint32_t c = 0; for (i = 0; i < 8; i++) { c += (uint32_t) a.l[i] + b.l[i]; r.l[i] = c; c >>= 16; } return r; }
static big b_neg(big a) { int i; big one = { { 1 } }; for (i = 0; i < 8; i++) a.l[i] = ~a.l[i]; return b_add(a, one); }
static int b_cmp(big a, big b) { int i; for (i = 7; i >= 0; i--) if (a.l[i] != b.l[i]) return a.l[i] < b.l[i] ? -1 : 1; return 0; }
static big b_shl1(big a) { return b_add(a, a); }
static big b_shr1(big a) { int i; for (i = 0; i < 8; i++) a.l[i] = a.l[i] >> 1 | (i < 7 ? a.l[i + 1] << 15 : 0); return a; }
static void b_dec(big a, char *out)
{
    char  t[64];
    int  n = 0, i;
    do {
        uint32_t  r = 0;
        for (i = 7; i >= 0; i--) { r = r << 16 | a.l[i]; a.l[i] = r / 10; r %= 10; }
        t[n++] = '0' + r;
        for (i = 0; i < 8 && a.l[i] == 0; i++) ;
    } while (i < 8);
    while (n) *out++ = t[--n];
    *out = 0;
}
static void b_hex(big a, char *out, bool pad)
{
    int  i, n = 0;
    for (i = 31; i >= 0; i--) {
        int  d = a.l[i / 4] >> 4 * (i % 4) & 15;
        if (d || n || i == 0 || pad) out[n++] = "0123456789abcdef"[d];
    }
    out[n] = 0;
}
static cork_u128 mk(big a)
{
    return cork_u128_from_64((uint64_t) a.l[7] << 48 | (uint64_t) a.l[6] << 32 | (uint64_t) a.l[5] << 16 | a.l[4],
                             (uint64_t) a.l[3] << 48 | (uint64_t) a.l[2] << 32 | (uint64_t) a.l[1] << 16 | a.l[0]);
}
static const char *show(big a) { static char b[8][40]; static int k; k = (k + 1) % 8; b_hex(a, b[k], true); return b[k]; }
/* read back by single bytes; the byte accessor is itself compared with memory below */
static big rd(cork_u128 v)
{
    big  r;
    int  i;
    for (i = 0; i < 8; i++) r.l[i] = cork_u128_be8(v, 15 - 2 * i) | cork_u128_be8(v, 14 - 2 * i) << 8;
    return r;
}
static void same(cork_u128 got, big want, const char *op, big a, big b)
{
    mc_check(b_cmp(rd(got), want) == 0, op, "%s of %s and %s is %s, expected %s", op, show(a), show(b), show(rd(got)), show(want));
}
static char  *dec, *hex;
static void unary(big a)
{
    cork_u128  v = mk(a), w;
    int  i;
    char  want[64];
    const char  *s;
    unsigned char  mem[16];
    big  t;
    mc_eval(1);
    memcpy(mem, &v, 16);
    for (i = 0; i < 16; i++) {
        uint8_t  e = a.l[7 - i / 2] >> (i & 1 ? 0 : 8);
        mc_check(cork_u128_be8(v, i) == e, "be8", "byte %d of %s is %02x", i, show(a), cork_u128_be8(v, i));
        mc_check(mem[CORK_HOST_ENDIANNESS == CORK_BIG_ENDIAN ? i : 15 - i] == e, "memory", "%s isn't stored in host byte order", show(a));
    }
    for (i = 0; i < 8; i++) mc_check(cork_u128_be16(v, i) == a.l[7 - i], "be16", "16-bit part %d of %s is %04x", i, show(a), cork_u128_be16(v, i));
    for (i = 0; i < 4; i++) mc_check(cork_u128_be32(v, i) == ((uint32_t) a.l[7 - 2 * i] << 16 | a.l[6 - 2 * i]), "be32", "32-bit part %d of %s is %08x", i, show(a), cork_u128_be32(v, i));
    for (i = 0; i < 2; i++) mc_check(cork_u128_be64(v, i) == ((uint64_t) a.l[7 - 4 * i] << 48 | (uint64_t) a.l[6 - 4 * i] << 32 | (uint64_t) a.l[5 - 4 * i] << 16 | a.l[4 - 4 * i]), "be64", "64-bit part %d of %s is wrong", i, show(a));
    w = cork_u128_from_32((uint32_t) a.l[7] << 16 | a.l[6], (uint32_t) a.l[5] << 16 | a.l[4], (uint32_t) a.l[3] << 16 | a.l[2], (uint32_t) a.l[1] << 16 | a.l[0]);
    same(w, a, "from_32", a, a);
    same(cork_u128_zero(), b_of(0, 0), "zero", a, a);
    b_dec(a, want);
    memset(dec, 'x', CORK_U128_DECIMAL_LENGTH);
    s = cork_u128_to_decimal(dec, v);
    mc_check(s >= dec && s < dec + CORK_U128_DECIMAL_LENGTH && strcmp(s, want) == 0, "decimal", "%s in decimal is %s, expected %s", show(a), s, want);
    b_hex(a, want, false);
    memset(hex, 'x', CORK_U128_HEX_LENGTH);
    s = cork_u128_to_hex(hex, v);
    mc_check(s >= hex && s < hex + CORK_U128_HEX_LENGTH && strcmp(s, want) == 0, "hex", "%s in hex is %s, expected %s", show(a), s, want);
    b_hex(a, want, true);
    memset(hex, 'x', CORK_U128_HEX_LENGTH);
    s = cork_u128_to_padded_hex(hex, v);
    mc_check(s >= hex && s < hex + CORK_U128_HEX_LENGTH && strcmp(s, want) == 0, "padded-hex", "%s in padded hex is %s, expected %s", show(a), s, want);
    for (i = 0, t = a; i < 128; i++, t = b_shl1(t)) same(cork_u128_shl(v, i), t, "shift left", a, b_of(0, i));
    for (i = 0, t = a; i < 128; i++, t = b_shr1(t)) same(cork_u128_shr(v, i), t, "shift right", a, b_of(0, i));
}
static void binary(big a, big b)
{
    cork_u128  x = mk(a), y = mk(b);
    int  c = b_cmp(a, b);
    mc_eval(1);
    same(cork_u128_add(x, y), b_add(a, b), "sum", a, b);
    same(cork_u128_sub(x, y), b_add(a, b_neg(b)), "difference", a, b);
    mc_check(cork_u128_eq(x, y) == (c == 0), "eq", "eq(%s, %s)", show(a), show(b));
    mc_check(cork_u128_ne(x, y) == (c != 0), "ne", "ne(%s, %s)", show(a), show(b));
    mc_check(cork_u128_lt(x, y) == (c < 0), "lt", "lt(%s, %s)", show(a), show(b));
    mc_check(cork_u128_le(x, y) == (c <= 0), "le", "le(%s, %s)", show(a), show(b));
    mc_check(cork_u128_gt(x, y) == (c > 0), "gt", "gt(%s, %s)", show(a), show(b));
    mc_check(cork_u128_ge(x, y) == (c >= 0), "ge", "ge(%s, %s)", show(a), show(b));
}
static const uint32_t  limb[] = { 0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x12345678u, 0xfffffffeu, 0x9abcdef0u };
static big grid(int i, int m) { return b_of((uint64_t) limb[i % m] << 32 | limb[i / m % m], (uint64_t) limb[i / m / m % m] << 32 | limb[i / m / m / m]); }
#define NEDGE  2200
static big  edge[NEDGE];
static int  nedge;
static void add_edge(big a) { if (nedge < NEDGE) edge[nedge++] = a; }
#define R1  64      /* unary + binary over the grid */
#define R2  (R1 + 32)  /* edges x edges */
int mc_roots(void) { return R2; }
void mc_root_name(int r, char *b, size_t n) { snprintf(b, n, "%s, part %d", r < R1 ? "grid of 32-bit parts" : "powers and runs", r); }
void mc_init(void)
{
    int  i, j;
    big  p = b_of(0, 1), one = b_of(0, 1), m1 = b_neg(one), q;
    dec = malloc(CORK_U128_DECIMAL_LENGTH);
    hex = malloc(CORK_U128_HEX_LENGTH);
    add_edge(b_of(0, 0));
    for (i = 0; i < 128; i++, p = b_shl1(p)) { add_edge(p); add_edge(b_add(p, m1)); add_edge(b_add(p, one)); add_edge(b_neg(p)); add_edge(b_neg(b_add(p, one))); }
    for (i = 0, p = one; i < 39; i++) {      /* 10^i and its neighbours and multiples */
        for (j = 1, q = p; j < 10; j++, q = b_add(q, p)) { add_edge(q); add_edge(b_add(q, m1)); add_edge(b_add(q, one)); }
        p = b_shl1(b_add(b_shl1(b_shl1(p)), p));
    }
}
void mc_run(int root)
{
    int  i, j, m = MC_T(6, 8), n = m * m * m * m, k = mc_choose(8);
    mc_crash_key("u128");
    mc_log("part %d", k);
    mc_step();
    if (root < R1) {
        for (i = root * 8 + k; i < n; i += R1 * 8) {
            unary(grid(i, m));
            for (j = 0; j < n; j++) binary(grid(i, m), grid(j, m));
        }
        for (i = root * 8 + k; i < 65536; i += R1 * 8) { unary(b_of(0, i)); unary(b_of((uint64_t) i << 48, 0)); unary(b_of(i, (uint64_t) i << 40)); }
    } else {
        for (i = (root - R1) * 8 + k; i < nedge; i += (R2 - R1) * 8) {
            unary(edge[i]);
            for (j = 0; j < nedge; j++) binary(edge[i], edge[j]);
        }
    }
    mc_state(mc_h(root, k));
}
