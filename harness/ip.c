/* C16 (arg parse), C17 (arg format), C18 (arg cidr): IP addresses against independent oracles. */
#include <libcork/core.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;
static int  what;     /* 0 parse, 1 format, 2 cidr */

/* ------------------------------------------------------------------ oracle: parsing */
/* 1 well-formed, 0 not, 2 unspecified (an embedded octet padded beyond four digits) */
static int o_v4(const char *s, size_t n, unsigned char *out)
{
    int  parts = 0;
    size_t  i = 0;
    for (;;) {
        size_t  st = i;
        unsigned  v = 0;
        while (i < n && s[i] >= '0' && s[i] <= '9') { if (v < 1000) v = v * 10 + (s[i] - '0'); i++; }
        if (i == st || v > 255) return 0;
        out[parts++] = v;
        if (i == n) return parts == 4;
        if (s[i] != '.' || parts == 4) return 0;
        i++;
    }
}
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* a list of groups; returns their number or -1 */
static int o_groups(const char *s, size_t n, bool tail_ok, unsigned *w, int *unspec)
{
    int  c = 0;
    size_t  i = 0;
    if (n == 0) return 0;
    for (;;) {
        size_t  st = i;
        unsigned  v = 0;
        while (i < n && s[i] != ':') i++;
        if (memchr(s + st, '.', i - st)) {
            unsigned char  b[4];
            if (i != n || !tail_ok || !o_v4(s + st, i - st, b)) return -1;
            if ((char *) memchr(s + st, '.', i - st) - (s + st) > 4) *unspec = 1;
            if (c > 6) return -1;
            w[c++] = b[0] << 8 | b[1];
            w[c++] = b[2] << 8 | b[3];
            return c;
        }
        if (i == st || i - st > 4 || c == 8) return -1;
        for (; st < i; st++) { if (hexv(s[st]) < 0) return -1; v = v << 4 | hexv(s[st]); }
        w[c++] = v;
        if (i == n) return c;
        i++;
    }
}
static int o_v6(const char *s, size_t n, unsigned char *out)
{
    unsigned  l[10], r[10];
    int  nl, nr, i, unspec = 0;
    size_t  p;
    for (p = 0; p + 1 < n; p++) if (s[p] == ':' && s[p + 1] == ':') break;
    memset(out, 0, 16);
    if (p + 1 < n) {
        nl = o_groups(s, p, false, l, &unspec);
        nr = o_groups(s + p + 2, n - p - 2, true, r, &unspec);
        if (nl < 0 || nr < 0 || nl + nr > 7) return 0;
        for (i = 0; i < nl; i++) { out[2 * i] = l[i] >> 8; out[2 * i + 1] = l[i]; }
        for (i = 0; i < nr; i++) { out[2 * (8 - nr + i)] = r[i] >> 8; out[2 * (8 - nr + i) + 1] = r[i]; }
    } else {
        if (n == 0 || o_groups(s, n, true, l, &unspec) != 8) return 0;
        for (i = 0; i < 8; i++) { out[2 * i] = l[i] >> 8; out[2 * i + 1] = l[i]; }
    }
    return unspec ? 2 : 1;
}

static char  *room;
#define ROOM 4096
static struct { unsigned char pre[16]; struct cork_ip ip; unsigned char post[16]; }  g;
static unsigned char  pattern[sizeof g];
static void one(const char *str, size_t n)
{
    unsigned char  b4[16], b6[16];
    char  *s = room + ROOM - n - 1;
    int  w4, w6, rc, v;
    memcpy(s, str, n);
    s[n] = 0;
    w4 = o_v4(s, n, b4);
    w6 = o_v6(s, n, b6);
    mc_eval(3);
    for (v = 0; v < 3; v++) {
        static const char *name[] = { "cork_ipv4_init", "cork_ipv6_init", "cork_ip_init" };
        int  want = v == 0 ? w4 : v == 1 ? w6 : w4 ? w4 : w6;
        unsigned char  *got;
        memcpy(&g, pattern, sizeof g);
        if (v == 0) { rc = cork_ipv4_init(&g.ip.ip.v4, s); got = (void *) &g.ip.ip.v4; }
        else if (v == 1) { rc = cork_ipv6_init(&g.ip.ip.v6, s); got = (void *) &g.ip.ip.v6; }
        else { rc = cork_ip_init(&g.ip, s); got = (void *) &g.ip.ip; }
        if (want == 1) mc_check(rc == 0, "refused", "%s(\"%s\") refuses a well-formed address", name[v], mc_quote(s, n));
        if (want == 0) mc_check(rc != 0, "accepted", "%s(\"%s\") accepts a malformed address", name[v], mc_quote(s, n));
        if (rc == 0) {
            bool  four = v == 0 || (v == 2 && w4);
            mc_check(memcmp(got, four ? b4 : b6, four ? 4 : 16) == 0, "value", "%s(\"%s\") stores another address", name[v], mc_quote(s, n));
            if (v == 2) mc_check(g.ip.version == (four ? 4u : 6u), "version", "cork_ip_init(\"%s\") says version %u", mc_quote(s, n), g.ip.version);
            mc_check(!cork_error_occurred(), "error-on-success", "%s(\"%s\") succeeds with an error set", name[v], mc_quote(s, n));
            mc_check(memcmp(g.pre, pattern, 16) == 0 && memcmp(g.post, pattern + sizeof g - 16, 16) == 0, "overrun", "%s(\"%s\") writes outside the address", name[v], mc_quote(s, n));
            mc_check(memcmp(s, str, n + 1) == 0 || str[n] != 0, "input", "the string was changed");
        } else {
            mc_check(rc == -1, "rc", "%s(\"%s\") returns %d", name[v], mc_quote(s, n), rc);
            mc_check(memcmp(&g, pattern, sizeof g) == 0, "dest-changed", "%s(\"%s\") fails but changed the destination", name[v], mc_quote(s, n));
            mc_check(cork_error_code() == CORK_PARSE_ERROR, "error", "%s(\"%s\") fails without a parse error (code %u)", name[v], mc_quote(s, n), cork_error_code());
            cork_error_clear();
        }
    }
    if (w4 == 1) mc_cover("IPv4 accepted"); else if (w6 == 1) mc_cover("IPv6 accepted"); else mc_cover("refused");
}

/* ---- generators ---- */
/* A: every string over a small alphabet up to a length */
static const struct { const char *alpha; int qlen, tlen; }  A[] = {
    { "15.0", 10, 12 }, { ":1.", 12, 14 }, { ":f1", 12, 15 }, { ":a0.9g ", 7, 8 }, { "2569.", 8, 10 }, { "0:", 17, 20 }, { ".0", 17, 19 },
};
#define NA 7
/* B: structured IPv4 text */
static const char *part[] = { "0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", "00", "007", "0255", "0256", "00000001", "4294967297", "", "1a", " 1", "-1", "+1", "0x1" };
#define NPART 27
static const char *v4sep[] = { ".", "..", ",", ":" };
/* C: structured IPv6 text: k groups of a form, "::" at up to two places, tails */
static const char *group[] = { "0", "f", "12", "aBc", "0000", "FFFF", "12345", "g", "00000" };
#define NGROUP 9
static const char *tail[] = { NULL, "1.2.3.4", "255.255.255.255", "1.2.3", "1.2.3.4.5", "256.1.1.1", ".1.2.3", "1..2.3", "001.2.3.4", "00001.2.3.4", "a.1.2.3", "1.2.3.4:", "1.2.3.4::", "1.2.3.4:5" };
#define NTAIL 14
/* D: every one- and two-character edit of well-formed texts */
static const char *base[] = { "1.2.3.4", "255.0.10.199", "::", "::1", "1::", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1::7:8", "ABCD:ef01::12", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4:5::1.2.3.4", "::1.2.3.4", "fe80::1:0:0:1" };
#define NBASE 15
static const char  edit2[] = ":.1a0";
#define RA  (NA * 8)
#define RB  (RA + NPART)
#define RC  (RB + 10)
#define RD  (RC + NBASE)
static void lead(void) { }
/* edits at one place: delete, replace by c, insert c */
static size_t edit(char *d, const char *s, size_t n, size_t pos, int kind, char c)
{
    memcpy(d, s, pos);
    if (kind == 0) { if (pos >= n) return (size_t) -1; memcpy(d + pos, s + pos + 1, n - pos - 1); return n - 1; }
    if (kind == 1) { if (pos >= n) return (size_t) -1; memcpy(d + pos + 1, s + pos + 1, n - pos - 1); d[pos] = c; return n; }
    memcpy(d + pos + 1, s + pos, n - pos); d[pos] = c; return n + 1;
}
static void run_parse(int root)
{
    char  s[200], t[200];
    int  i, j, k, l;
    if (root < RA) {
        int  a = root / 8, sub = root % 8, m = strlen(A[a].alpha), max = MC_T(A[a].qlen, A[a].tlen), len = mc_choose(max + 1);
        long  total = 1, c;
        for (i = 0; i < len; i++) total *= m;
        mc_log("all strings of %d characters of \"%s\" (part %d)", len, A[a].alpha, sub);
        for (c = sub; c < total; c += 8) {
            long  x = c;
            for (i = 0; i < len; i++, x /= m) s[i] = A[a].alpha[x % m];
            one(s, len);
        }
        mc_step();
    } else if (root < RB) {
        int  a = root - RA, b = mc_choose(NPART);
        mc_log("IPv4 texts starting with \"%s.%s\"", part[a], part[b]);
        for (k = 0; k < NPART; k++) for (l = 0; l < NPART; l++) {
            for (j = 0; j < 4; j++) for (i = 0; i < (j ? 3 : 1); i++) {
                const char  *se[3] = { ".", ".", "." };
                se[i] = v4sep[j];
                one(s, snprintf(s, sizeof s, "%s%s%s%s%s%s%s", part[a], se[0], part[b], se[1], part[k], se[2], part[l]));
            }
            one(s, snprintf(s, sizeof s, "%s.%s.%s.%s.", part[a], part[b], part[k], part[l]));
            one(s, snprintf(s, sizeof s, ".%s.%s.%s.%s", part[a], part[b], part[k], part[l]));
            if (k < 3) one(s, snprintf(s, sizeof s, "%s.%s.%s", part[a], part[b], part[l]));
            if (k < 3) one(s, snprintf(s, sizeof s, "%s.%s.%s.%s.%s", part[a], part[b], part[l], part[k], part[l]));
        }
        mc_step();
    } else if (root < RC) {
        int  n = root - RB, p1 = mc_choose(n + 2), ed = mc_choose(4), gi, pos;
        mc_log("IPv6 texts of %d groups, \"::\" at %d, ends %d", n, p1 - 1, ed);
        /* p1-1: the gap before group p1-1 is "::" (0 none) ; second gap p2; one odd group at pos */
        for (int p2 = 0; p2 <= n + 1; p2++) for (gi = 0; gi < NGROUP; gi++) for (pos = 0; pos < (gi ? n : 1); pos++) for (k = 0; k < NTAIL; k++) {
            size_t  o = 0;
            int  total = n + (tail[k] != NULL);
            if (ed & 1) s[o++] = ':';
            for (i = 0; i <= total; i++) {
                bool  dbl = p1 == i + 1 || p2 == i + 1;
                if (dbl) { s[o++] = ':'; s[o++] = ':'; }
                else if (i > 0 && i < total) s[o++] = ':';
                if (i < n) o += sprintf(s + o, "%s", i == pos ? group[gi] : "1");
                else if (i < total) o += sprintf(s + o, "%s", tail[k]);
            }
            if (ed & 2) s[o++] = ':';
            one(s, o);
        }
        mc_step();
    } else {
        const char  *b = base[root - RC];
        size_t  n = strlen(b), pos = mc_choose(n + 1), m, pos2;
        mc_log("edits of \"%s\" at %zu", b, pos);
        one(b, n);
        for (k = 0; k < 3; k++) for (i = 1; i < (k ? 256 : 2); i++) {
            m = edit(t, b, n, pos, k, i);
            if (m != (size_t) -1) one(t, m);
        }
        for (k = 0; k < 3; k++) for (i = 0; i < (k ? 5 : 1); i++) {
            m = edit(t, b, n, pos, k, edit2[i]);
            if (m == (size_t) -1) continue;
            for (pos2 = 0; pos2 <= m; pos2++) for (j = 0; j < 3; j++) for (l = 0; l < (j ? 5 : 1); l++) {
                size_t  q = edit(s, t, m, pos2, j, edit2[l]);
                if (q == (size_t) -1) continue;
                one(s, q);
                if (mc_thorough) {
                    char  u[200];
                    size_t  pos3, q3;
                    for (pos3 = 0; pos3 <= q; pos3++) for (int j3 = 0; j3 < 3; j3++) for (int l3 = 0; l3 < (j3 ? 3 : 1); l3++)
                        if ((q3 = edit(u, s, q, pos3, j3, edit2[l3])) != (size_t) -1) one(u, q3);
                }
            }
        }
        mc_step();
    }
    (void) lead;
}

/* ------------------------------------------------------------------ formatting */
static void text4(const unsigned char *b, char *d) { sprintf(d, "%d.%d.%d.%d", b[0], b[1], b[2], b[3]); }
static void text6(const unsigned char *b, char *d)
{
    unsigned  w[8];
    int  i, j, bs = -1, bl = 1, n = 8;
    bool  zero5 = true;
    for (i = 0; i < 8; i++) w[i] = b[2 * i] << 8 | b[2 * i + 1];
    for (i = 0; i < 5; i++) if (w[i]) zero5 = false;
    for (i = 0; i < 8; i++) {
        for (j = i; j < 8 && w[j] == 0; j++) ;
        if (j - i > bl) { bl = j - i; bs = i; }
    }
    if (zero5 && (w[5] == 0xffff || (w[5] == 0 && w[6] != 0))) n = 6;
    *d = 0;
    for (i = 0; i < n; ) {
        if (i == bs) { strcat(d, "::"); i += bl; continue; }
        if (*d && d[strlen(d) - 1] != ':') strcat(d, ":");
        sprintf(d + strlen(d), "%x", w[i++]);
    }
    if (n == 6) {
        if (*d && d[strlen(d) - 1] != ':') strcat(d, ":");
        text4(b + 12, d + strlen(d));
    }
}
static char  *s4, *s6, *sg;
static void format4(const unsigned char *b)
{
    char  want[80];
    struct cork_ipv4  a, a2;
    struct cork_ip  ip, ip2;
    mc_eval(1);
    text4(b, want);
    cork_ipv4_copy(&a, b);
    mc_check(memcmp(&a, b, 4) == 0, "copy", "IPv4 copy of %s differs", want);
    memset(s4, 'x', CORK_IPV4_STRING_LENGTH);
    cork_ipv4_to_raw_string(&a, s4);
    mc_check(memchr(s4, 0, CORK_IPV4_STRING_LENGTH) && strcmp(s4, want) == 0, "text", "%s is rendered as %.16s", want, s4);
    cork_ip_from_ipv4(&ip, b);
    cork_ip_to_raw_string(&ip, sg);
    mc_check(strcmp(sg, want) == 0, "text", "generic %s is rendered as %s", want, sg);
    mc_check(cork_ipv4_init(&a2, s4) == 0 && cork_ipv4_equal(&a, &a2) && memcmp(&a2, b, 4) == 0, "round-trip", "%s doesn't parse back", s4);
    mc_check(cork_ip_init(&ip2, sg) == 0 && cork_ip_equal(&ip, &ip2) && ip2.version == 4, "round-trip", "generic %s doesn't parse back", s4);
}
static void format6(const unsigned char *b)
{
    char  want[80];
    struct cork_ipv6  a, a2;
    struct cork_ip  ip, ip2;
    mc_eval(1);
    text6(b, want);
    cork_ipv6_copy(&a, b);
    mc_check(memcmp(&a, b, 16) == 0, "copy", "IPv6 copy of %s differs", want);
    memset(s6, 'x', CORK_IPV6_STRING_LENGTH);
    cork_ipv6_to_raw_string(&a, s6);
    mc_check(memchr(s6, 0, CORK_IPV6_STRING_LENGTH) && strcmp(s6, want) == 0, "text", "%s is rendered as %.46s", want, s6);
    cork_ip_from_ipv6(&ip, b);
    cork_ip_to_raw_string(&ip, sg);
    mc_check(strcmp(sg, want) == 0, "text", "generic %s is rendered as %s", want, sg);
    mc_check(cork_ipv6_init(&a2, s6) == 0 && cork_ipv6_equal(&a, &a2) && memcmp(&a2, b, 16) == 0, "round-trip", "%s doesn't parse back", s6);
    mc_check(cork_ip_init(&ip2, sg) == 0 && cork_ip_equal(&ip, &ip2) && ip2.version == 6, "round-trip", "generic %s doesn't parse back", s6);
}
static const unsigned char  oct[] = { 0, 1, 9, 10, 99, 100, 200, 255 };
static const unsigned  word[] = { 0, 1, 0xffff, 0x10, 0xab00, 0xfff };
static void equality(void)
{
    /* every pair from a family of addresses with single-bit differences */
    static struct cork_ip  f[700];
    struct cork_ip  z;
    int  n = 0, i, j, k;
    static const unsigned char  fills[] = { 0, 0xff, 0x5a };
    for (k = 0; k < 3; k++) {
        unsigned char  b[16];
        memset(b, fills[k], 16);
        for (i = -1; i < 128; i++) {
            if (i >= 0) b[i / 8] ^= 1 << i % 8;
            memset(&z, k * 7 + i, sizeof z); cork_ip_from_ipv6(&z, b); f[n++] = z;
            if (i < 32) { memset(&z, k * 5 + i, sizeof z); cork_ip_from_ipv4(&z, b); f[n++] = z; }
            if (i >= 0) b[i / 8] ^= 1 << i % 8;
        }
    }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
        bool  same = f[i].version == f[j].version && memcmp(&f[i].ip, &f[j].ip, f[i].version == 4 ? 4 : 16) == 0;
        mc_eval(1);
        mc_check(cork_ip_equal(&f[i], &f[j]) == same, "equal", "cork_ip_equal of version %u and %u addresses is %d", f[i].version, f[j].version, !same);
        if (f[i].version == 4 && f[j].version == 4) mc_check(cork_ipv4_equal(&f[i].ip.v4, &f[j].ip.v4) == same && cork_ipv4_equal_(&f[i].ip.v4, &f[j].ip.v4) == same, "equal", "cork_ipv4_equal is wrong");
        if (f[i].version == 6 && f[j].version == 6) mc_check(cork_ipv6_equal(&f[i].ip.v6, &f[j].ip.v6) == same && cork_ipv6_equal_(&f[i].ip.v6, &f[j].ip.v6) == same, "equal", "cork_ipv6_equal is wrong");
    }
}
#define F4  8
#define F6  (F4 + 36)
#define F6W (F6 + 8)
static void run_format(int root)
{
    unsigned char  b[16];
    int  i, j, k, l;
    if (root < F4) {
        int  p = mc_choose(4), q = mc_choose(4);
        if (p == q) { if (p || root) return; q = 1; }
        mc_log("IPv4 addresses, octets %d and %d", p, q);
        for (i = 0; i < 256; i++) for (j = 0; j < (mc_thorough ? 256 : 8); j++) for (k = 0; k < 8; k++) {
            int  r[2], c = 0;
            for (l = 0; l < 4; l++) if (l != p && l != q) r[c++] = l;
            b[p] = i; b[q] = mc_thorough ? j : oct[j]; b[r[0]] = oct[k]; b[r[1]] = oct[root];
            format4(b);
        }
        mc_step();
    } else if (root < F6) {
        int  a = (root - F4) / 6, c = (root - F4) % 6, d = mc_choose(6), m = MC_T(5, 6);
        long  x, total = 1;
        if (!mc_thorough && (a == 5 || c == 5 || d == 5)) { mc_step(); mc_state(root); return; }
        for (i = 0; i < 5; i++) total *= m;
        mc_log("IPv6 addresses starting with %x:%x:%x", word[a], word[c], word[d]);
        for (x = 0; x < total; x++) {
            unsigned  w[8] = { word[a], word[c], word[d] };
            long  y = x;
            for (i = 3; i < 8; i++, y /= m) w[i] = word[y % m];
            for (i = 0; i < 8; i++) { b[2 * i] = w[i] >> 8; b[2 * i + 1] = w[i]; }
            format6(b);
        }
        mc_step();
    } else if (root < F6W) {
        int  p = root - F6, ctx = mc_choose(5);
        static const unsigned char  fill[] = { 0, 0xff, 0x01 };
        mc_log("IPv6 addresses, every value of group %d", p);
        for (i = 0; i < 65536; i++) {
            memset(b, fill[ctx % 3], 16);
            if (ctx == 3) { memset(b, 0, 10); b[10] = b[11] = 0xff; }
            if (ctx == 4) { memset(b, 0, 12); b[12] = 9; }
            b[2 * p] = i >> 8; b[2 * p + 1] = i;
            format6(b);
        }
        mc_step();
    } else { mc_log("equality"); equality(); mc_step(); }
    mc_state(mc_hbuf(root, b, 4));
}

/* ------------------------------------------------------------------ CIDR */
static const unsigned  oddprefix[] = { 160, 191, 192, 255, 256, 257, 288, 1u << 16, 0x7fffffff, 0x80000000u, 0xffffffffu, (1u << 31) + 32 };
static bool clean(const unsigned char *b, int bits, unsigned p)
{
    int  i;
    if (p > (unsigned) bits) return false;
    for (i = p; i < bits; i++) if (b[i / 8] >> (7 - i % 8) & 1) return false;
    return true;
}
static void cidr(const unsigned char *b, int bits)
{
    unsigned  p;
    struct cork_ipv4  a4;
    struct cork_ipv6  a6;
    struct cork_ip  ip;
    int  last = -1, i;
    for (i = 0; i < bits; i++) if (b[i / 8] >> (7 - i % 8) & 1) last = i;
    if (bits == 32) { cork_ipv4_copy(&a4, b); cork_ip_from_ipv4(&ip, b); }
    else { cork_ipv6_copy(&a6, b); cork_ip_from_ipv6(&ip, b); }
    for (p = 0; p < 140 + 12; p++) {
        unsigned  q = p < 140 ? p : oddprefix[p - 140];
        bool  want = q <= (unsigned) bits && (int) q > last;
        bool  got = bits == 32 ? cork_ipv4_is_valid_network(&a4, q) : cork_ipv6_is_valid_network(&a6, q);
        mc_eval(2);
        if (got != want) mc_check(clean(b, bits, q) == got, "cidr", "IPv%d address %s with prefix /%u is reported %s", bits == 32 ? 4 : 6, mc_quote(b, bits / 8), q, got ? "valid" : "invalid");
        got = cork_ip_is_valid_network(&ip, q);
        if (got != want) mc_check(clean(b, bits, q) == got, "cidr-generic", "generic IPv%d address %s with prefix /%u is reported %s", bits == 32 ? 4 : 6, mc_quote(b, bits / 8), q, got ? "valid" : "invalid");
    }
}
static void setb(unsigned char *b, int i) { b[i / 8] |= 0x80 >> i % 8; }
static void run_cidr(int root)
{
    unsigned char  b[16];
    int  bits = root < 33 ? 32 : 128, f = root < 33 ? root : root - 33, i, j, k, bytes = bits / 8;
    /* f: lowest set bit's position; bits means none.  All addresses with up to 3 (4) bits set, and their runs and byte fills */
    mc_log("IPv%d addresses whose first set bit is %d", bits == 32 ? 4 : 6, f);
    mc_choose(1);
    mc_step();
    memset(b, 0, 16);
    if (f == bits) { cidr(b, bits); mc_state(root); return; }
    setb(b, f);
    cidr(b, bits);
    for (i = f + 1; i < bits; i++) {
        memset(b, 0, 16); setb(b, f); setb(b, i); cidr(b, bits);
        for (j = f; j <= i; j++) setb(b, j);
        cidr(b, bits);      /* a run */
        if (bits == 32 || mc_thorough)
            for (j = i + 1; j < bits; j++) {
                memset(b, 0, 16); setb(b, f); setb(b, i); setb(b, j); cidr(b, bits);
                if (bits == 32 && mc_thorough) for (k = j + 1; k < bits; k++) { memset(b, 0, 16); setb(b, f); setb(b, i); setb(b, j); setb(b, k); cidr(b, bits); }
            }
    }
    for (i = f / 8; i < bytes; i++) for (j = 1; j < 256; j++) { memset(b, 0, 16); setb(b, f); b[i] = j; cidr(b, bits); }
    mc_state(root);
}

int mc_roots(void)
{
    what = strcmp(mc_arg, "parse") == 0 ? 0 : strcmp(mc_arg, "format") == 0 ? 1 : 2;
    return what == 0 ? RD : what == 1 ? F6W + 1 : 33 + 129;
}
void mc_root_name(int r, char *b, size_t n) { snprintf(b, n, "%s part %d", mc_arg, r); }
void mc_init(void)
{
    size_t  i;
    room = malloc(ROOM);
    memset(room, '1', ROOM);
    s4 = malloc(CORK_IPV4_STRING_LENGTH);
    s6 = malloc(CORK_IPV6_STRING_LENGTH);
    sg = malloc(CORK_IP_STRING_LENGTH);
    for (i = 0; i < sizeof pattern; i++) pattern[i] = 0xA0 + i % 71;
}
void mc_run(int root)
{
    mc_crash_key("%s", mc_arg);
    if (what == 0) { run_parse(root); mc_state(mc_h(root, mc_exec_index())); }
    else if (what == 1) run_format(root);
    else run_cidr(root);
}
