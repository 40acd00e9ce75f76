/* C20: timestamps against calendar arithmetic and exact fractions. */
#include <errno.h>
#include <time.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

struct fields { long Y; int m, d, H, M, S; };
/* days -> civil, proleptic Gregorian, by counting years */
static void civil(int64_t sec, struct fields *f)
{
    int64_t  day = sec / 86400, rem = sec % 86400;
    static const int  ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    int64_t  y;
    int  m;
    if (rem < 0) { rem += 86400; day--; }
    f->H = rem / 3600; f->M = rem / 60 % 60; f->S = rem % 60;
    y = 1970;
    while (day < 0) { y--; day += 365 + ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0); }
    for (;;) { int  l = 365 + ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0); if (day < l) break; day -= l; y++; }
    for (m = 0; ; m++) { int  l = ml[m] + (m == 1 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)); if (day < l) break; day -= l; }
    f->Y = y; f->m = m + 1; f->d = day + 1;
}
static struct cork_buffer  buf;
static int fmt(bool local, cork_timestamp ts, const char *f)
{
    int  rc;
    cork_buffer_set(&buf, "<", 1);
    rc = local ? cork_timestamp_format_local(ts, f, &buf) : cork_timestamp_format_utc(ts, f, &buf);
    mc_check(buf.size >= 1 && ((char *) buf.buf)[0] == '<', "append", "formatting with \"%s\" loses what was in the buffer", f);
    mc_check(((char *) buf.buf)[buf.size] == 0, "nul", "no NUL after the text");
    return rc;
}
#define TEXT  ((char *) buf.buf + 1)
static const struct { const char *tz; int off; }  zones[] = { { NULL, 0 }, { "XXX0", 0 }, { "AAA8", -8 * 3600 }, { "BBB-5:30", 5 * 3600 + 1800 }, { "CCC-14", 14 * 3600 }, { "DDD12", -12 * 3600 }, { "EST5EDT,M3.2.0,M11.1.0", 1 }, { "NZST-12NZDT,M9.5.0,M4.1.0/3", 1 } };
static void at(int z, uint32_t sec)
{
    cork_timestamp  ts;
    struct fields  f;
    char  want[120];
    mc_eval(1);
    cork_timestamp_init_sec(&ts, sec);
    if (zones[z].off == 1) {
        time_t  t = sec;
        struct tm  tm;
        localtime_r(&t, &tm);
        f.Y = tm.tm_year + 1900; f.m = tm.tm_mon + 1; f.d = tm.tm_mday; f.H = tm.tm_hour; f.M = tm.tm_min; f.S = tm.tm_sec;
    } else civil((int64_t) sec + zones[z].off, &f);
    sprintf(want, "%04ld-%02d-%02dT%02d:%02d:%02d %lu%%", f.Y, f.m, f.d, f.H, f.M, f.S, (unsigned long) sec);
    mc_check(fmt(z > 0, ts, "%Y-%m-%dT%H:%M:%S %s%%") == 0, "format-fails", "formatting %lu fails", (unsigned long) sec);
    mc_check(strcmp(TEXT, want) == 0, z ? "local" : "utc", "%lu in zone %s is %s, expected %s", (unsigned long) sec, z ? zones[z].tz : "UTC", TEXT, want);
}
static const uint32_t  offs[] = { 0, 1, 59, 60, 3599, 3600, 43199, 43200, 82800, 86399 };
static const uint32_t  secs[] = { 0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 1200000000u };

/* one fraction `v` of 1/u second */
typedef void (*init_f)(cork_timestamp *, uint64_t, uint64_t);
static inline void fraction_ok(cork_timestamp ts, const char *what, uint64_t v)
{
    if (cork_timestamp_msec(ts) >= 1000 || cork_timestamp_usec(ts) >= 1000000 || cork_timestamp_nsec(ts) >= 1000000000)
        mc_fail("whole-second", "%s %llu: the fraction reads as %llu ms, %llu us, %llu ns", what, (unsigned long long) v, (unsigned long long) cork_timestamp_msec(ts), (unsigned long long) cork_timestamp_usec(ts), (unsigned long long) cork_timestamp_nsec(ts));
}
/* |units/denom - gsec/2^32| < 1/denom */
static bool near_(uint64_t units, uint64_t denom, uint32_t gsec)
{
    __int128  d = (__int128) units * ((__int128) 1 << 32) - (__int128) gsec * denom;
    return d < ((__int128) 1 << 32) && -d < ((__int128) 1 << 32);
}
static void widths(cork_timestamp ts)
{
    int  w;
    uint32_t  g = cork_timestamp_gsec(ts);
    char  f[20], *e;
    uint64_t  den = 1;
    for (w = 1; w <= 9; w++) {
        uint64_t  v;
        den *= 10;
        mc_eval(1);
        sprintf(f, w & 1 ? "%%%df" : "%%0%df", w);
        mc_check(fmt(false, ts, f) == 0, "format-fails", "formatting with %s fails", f);
        v = strtoull(TEXT, &e, 10);
        mc_check((int) strlen(TEXT) == w && *e == 0 && TEXT[0] >= '0', "digits", "%s of fraction %#x/2^32 is \"%s\"", f, g, TEXT);
        mc_check(near_(v, den, g), "fraction", "%s of fraction %#x/2^32 is \"%s\"", f, g, TEXT);
    }
}
#define U(unit, den) static void unit##_one(uint32_t s, uint64_t v, bool text) { \
    cork_timestamp  ts; \
    cork_timestamp_init_##unit(&ts, s, v); \
    if (cork_timestamp_sec(ts) != s || cork_timestamp_##unit(ts) != v) \
        mc_fail("round-trip", "init_" #unit "(%lu, %llu) gives %lu and %llu", (unsigned long) s, (unsigned long long) v, (unsigned long) cork_timestamp_sec(ts), (unsigned long long) cork_timestamp_##unit(ts)); \
    fraction_ok(ts, #unit, v); \
    if (v > 0) { cork_timestamp  p; cork_timestamp_init_##unit(&p, s, v - 1); mc_check(p < ts, "order", "init_" #unit " doesn't preserve order at %llu", (unsigned long long) v); } \
    if (!near_(v, den, cork_timestamp_gsec(ts))) mc_fail("fraction", "init_" #unit " %llu is stored as %#x/2^32", (unsigned long long) v, cork_timestamp_gsec(ts)); \
    if (text) { char  want[20]; static const int  w = sizeof #den - 2; char  f[8]; \
        sprintf(f, "%%%df", w); sprintf(want, "%0*llu", w, (unsigned long long) v); \
        mc_check(fmt(false, ts, f) == 0 && strcmp(TEXT, want) == 0, "fraction-text", "%s of %s " #unit " is %s", f, want, TEXT); } }
U(msec, 1000)
U(usec, 1000000)
U(nsec, 1000000000)

/* format strings: every sequence of tokens */
static const char *tok[] = { "%Y", "%m", "%d", "%H", "%M", "%S", "%s", "%%", "%3f", "%9f", "x", "7", " ", "\n", "%", "%f", "%0f", "%10f", "%q", "%:", "%4294967299f", "%99999999999999999999f", "%1f", "\xc3\xa9" };
#define NT 24
static void tokens(int n, const int *t)
{
    char  f[200] = "", want[400] = "", *w = want;
    cork_timestamp  ts;
    struct fields  c;
    const char  *p;
    int  i, bad = 0;
    cork_timestamp_init_nsec(&ts, 1078000009, 123456789);
    civil(1078000009, &c);
    for (i = 0; i < n; i++) strcat(f, tok[t[i]]);
    /* parse it by the documentation */
    for (p = f; *p && !bad; p++) {
        double  width = 0;
        if (*p != '%') { *w++ = *p; *w = 0; continue; }
        for (p++; *p >= '0' && *p <= '9'; p++) width = width * 10 + *p - '0';
        switch (*p) {
            case '%': if (p[-1] == '%') w += sprintf(w, "%%"); else return; break;     /* (%5% isn't documented) */
            case 'Y': w += sprintf(w, "%04ld", c.Y); break;
            case 'm': w += sprintf(w, "%02d", c.m); break;
            case 'd': w += sprintf(w, "%02d", c.d); break;
            case 'H': w += sprintf(w, "%02d", c.H); break;
            case 'M': w += sprintf(w, "%02d", c.M); break;
            case 'S': w += sprintf(w, "%02d", c.S); break;
            case 's': w += sprintf(w, "1078000009"); break;
            case 'f':
                if (width == 3) w += sprintf(w, "123");
                else if (width == 9) w += sprintf(w, "123456789");
                else if (width == 1) w += sprintf(w, "1");
                else if (width < 1 || width > 9) bad = 1;
                else return;      /* the digits are checked elsewhere */
                break;
            default: bad = 1;
        }
        if (*p == 0) break;
    }
    mc_eval(1);
    i = fmt(false, ts, f);
    if (bad) {
        mc_check(i == -1, "bad-format", "format %s gives %d, not an error", mc_quote(f, strlen(f)), i);
        mc_check(cork_error_occurred(), "no-error", "format %s fails without an error", mc_quote(f, strlen(f)));
        cork_error_clear();
    } else {
        mc_check(i == 0 && !cork_error_occurred(), "format-fails", "format %s fails", mc_quote(f, strlen(f)));
        mc_check(strcmp(TEXT, want) == 0, "text", "format %s gives %s, expected %s", mc_quote(f, strlen(f)), mc_quote(TEXT, strlen(TEXT)), mc_quote(want, strlen(want)));
    }
}
#define RZ  (8 * 16)            /* zones x parts of the range of seconds */
#define RN  (RZ + 64)           /* nanoseconds */
#define RG  (RN + 32)           /* gammaseconds */
#define RM  (RG + 8)            /* milli- and microseconds */
#define RF  (RM + NT)           /* format strings */
int mc_roots(void) { return RF; }
void mc_root_name(int r, char *b, size_t n)
{
    if (r < RZ) snprintf(b, n, "calendar, zone %s, part %d", zones[r / 16].tz ? zones[r / 16].tz : "UTC", r % 16);
    else if (r < RN) snprintf(b, n, "nanoseconds, part %d", r - RZ);
    else if (r < RG) snprintf(b, n, "gammaseconds, part %d", r - RN);
    else if (r < RM) snprintf(b, n, "milli- and microseconds, part %d", r - RG);
    else snprintf(b, n, "formats starting with \"%s\"", tok[r - RM]);
}
void mc_init(void) { cork_buffer_init(&buf); }
void mc_run(int root)
{
    uint64_t  i, step;
    int  k;
    mc_crash_key("timestamp");
    mc_step();
    if (root < RZ) {
        int  z = root / 16, q = root % 16, w = mc_choose(4);
        uint64_t  lo = (uint64_t) q << 28 | (uint64_t) w << 26, hi = lo + (1u << 26);
        if (zones[z].tz) { setenv("TZ", zones[z].tz, 1); tzset(); }
        mc_log("seconds %llu to %llu", (unsigned long long) lo, (unsigned long long) hi - 1);
        /* every day at ten times of day (thorough: every 15 minutes, +-1 second); every second of one day */
        at(z, lo); at(z, hi - 1);
        if (mc_thorough) for (i = lo; i < hi; i += 900) { at(z, i); at(z, i + 1); if (i) at(z, i - 1); }
        else for (i = lo / 86400; i * 86400 < hi; i++) for (k = 0; k < 10; k++) {
            uint64_t  s = i * 86400 + offs[k];
            if (s >= lo && s < hi) at(z, s);
        }
        for (i = 0; i < 86400; i += MC_T(7, 1)) at(z, lo + i);
    } else if (root < RN) {
        int  q = root - RZ, w = mc_choose(4);
        uint64_t  lo = (uint64_t) 1000000000 * (q * 4 + w) / 256, hi = (uint64_t) 1000000000 * (q * 4 + w + 1) / 256;
        step = MC_T(11, 1);
        mc_log("nanoseconds %llu to %llu by %llu", (unsigned long long) lo, (unsigned long long) hi - 1, (unsigned long long) step);
        for (i = lo; i < hi; i += step) nsec_one(secs[i % 6], i, false);
        for (i = lo; i < lo + 2000; i++) nsec_one(secs[i % 6], i, true);
        for (i = hi - 2000; i < hi; i++) nsec_one(secs[i % 6], i, true);
        mc_eval((hi - lo) / step);
    } else if (root < RG) {
        int  q = root - RN, w = mc_choose(4);
        uint64_t  lo = (uint64_t) (q * 4 + w) << 25, hi = lo + (1u << 25);
        cork_timestamp  ts;
        step = MC_T(61, 1);
        mc_log("gammaseconds %#llx to %#llx by %llu", (unsigned long long) lo, (unsigned long long) hi - 1, (unsigned long long) step);
        for (i = lo; i < hi; i += step) {
            cork_timestamp_init_gsec(&ts, 9, i);
            if (cork_timestamp_sec(ts) != 9 || cork_timestamp_gsec(ts) != i) mc_fail("round-trip", "init_gsec(9, %#llx) gives %lu and %#x", (unsigned long long) i, (unsigned long) cork_timestamp_sec(ts), cork_timestamp_gsec(ts));
            fraction_ok(ts, "gsec", i);
            mc_check(near_(cork_timestamp_msec(ts), 1000, i) && near_(cork_timestamp_usec(ts), 1000000, i) && near_(cork_timestamp_nsec(ts), 1000000000, i), "fraction", "gsec %#llx reads as %llu ms, %llu us, %llu ns", (unsigned long long) i, (unsigned long long) cork_timestamp_msec(ts), (unsigned long long) cork_timestamp_usec(ts), (unsigned long long) cork_timestamp_nsec(ts));
        }
        mc_eval((hi - lo) / step);
        for (i = lo; i < hi; i += 50021) { cork_timestamp_init_gsec(&ts, 3, i); widths(ts); }
        for (i = hi - 40; i < hi; i++) { cork_timestamp_init_gsec(&ts, 3, i); fraction_ok(ts, "gsec", i); widths(ts); }
    } else if (root < RM) {
        int  q = root - RG;
        cork_timestamp  ts, prev = 0;
        mc_log("milli- and microseconds");
        for (k = 0; k < 6; k++) {
            for (i = q; i < 1000; i += 8) msec_one(secs[k], i, true);
            for (i = q; i < 1000000; i += 8) usec_one(secs[k], i, i % 16 == (unsigned) q);
            cork_timestamp_init_sec(&ts, secs[k]);
            mc_check(cork_timestamp_sec(ts) == secs[k] && cork_timestamp_gsec(ts) == 0 && cork_timestamp_nsec(ts) == 0, "sec", "init_sec(%lu)", (unsigned long) secs[k]);
        }
        for (i = 0; i < 5; i++) { cork_timestamp_init_sec(&ts, secs[i]); mc_check(i == 0 || ts > prev, "order", "later seconds aren't later"); cork_timestamp_init_nsec(&prev, secs[i], 999999999); }
        mc_eval(6 * 1001000 / 8);
        if (q == 0) {
            time_t  b = time(NULL), e;
            cork_timestamp_init_now(&ts);
            e = time(NULL);
            mc_check(cork_timestamp_sec(ts) >= b && cork_timestamp_sec(ts) <= e, "now", "init_now says %lu at %lu", (unsigned long) cork_timestamp_sec(ts), (unsigned long) b);
        }
    } else {
        int  t[5], n = 1 + mc_choose(MC_T(3, 4)), m;
        t[0] = root - RM;
        mc_log("%d tokens", n);
        for (m = 1, k = 1; k < n; k++) m *= NT;
        for (i = 0; i < (uint64_t) m; i++) {
            uint64_t  x = i;
            for (k = 1; k < n; k++, x /= NT) t[k] = x % NT;
            tokens(n, t);
        }
        if (root == RM) { cork_timestamp  ts; cork_timestamp_init_sec(&ts, 1); mc_check(fmt(false, ts, "") == 0 && TEXT[0] == 0, "empty", "an empty format gives \"%s\"", TEXT); }
    }
    mc_state(mc_h(root, mc_exec_index()));
}
