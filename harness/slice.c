/* C11 (arg=range): slices against byte ranges.  C12 (arg=life): life time of managed buffers. */
#include <libcork/core.h>
#include <libcork/ds.h>
#include <sanitizer/asan_interface.h>
#include "mc.h"
#include "track.h"
const char *mc_harness_name = HARNESS_NAME;
static bool life;
static int  nkinds = 6;
static const char *kinds[] = { "static", "copy-once", "managed", "managed copy", "custom managed", "buffer" };
#define NSZ 4
static const int  sizes[NSZ] = { 0, 1, 3, 4 };
#define NBIG 10
static const int  bigs[NBIG] = { 127, 128, 255, 256, 257, 4096, 65535, 65536, 65537, 70000 };      /* of bytes, of references */
#define BIG0  (life ? 3 * 2 : nkinds * NSZ)
int mc_roots(void) { life = !strcmp(mc_arg, "life"); return BIG0 + (life ? 3 : nkinds) * NBIG; }
void mc_root_name(int r, char *b, size_t n)
{
    life = !strcmp(mc_arg, "life");
    if (r >= BIG0 && life) snprintf(b, n, "%s, %d references", kinds[2 + (r - BIG0) % 3], bigs[(r - BIG0) / 3]);
    else if (r >= BIG0) snprintf(b, n, "%s source of %d bytes", kinds[(r - BIG0) % nkinds], bigs[(r - BIG0) / nkinds]);
    else if (life) snprintf(b, n, "%s, %d bytes", kinds[2 + r % 3], r / 3 ? 5 : 0);
    else snprintf(b, n, "%s source of %d bytes", kinds[r % nkinds], sizes[r / nkinds]);
}
void mc_init(void) { life = !strcmp(mc_arg, "life"); track_install(); mc_unpruned = 3; track_prime(); }

#define MS 3
static struct { struct cork_slice s; bool used, light; int parent; size_t off, len; bool deep; }  sl[MS];
static unsigned char  data[70016], *src;
static size_t  N;
static int  freed;
static size_t  live_base;

static void freer(void *buf, size_t size)
{
    mc_check(buf == src && size == N, "free-args", "free function got (%p, %zu), expected (%p, %zu)", buf, size, src, N);
    mc_check(freed == 0, "free-twice", "free function called twice");
    freed++;
}
struct custom { struct cork_managed_buffer  parent; int tag; };
static void custom_free(struct cork_managed_buffer *m)
{
    struct custom  *c = (struct custom *) m;
    mc_check(c->tag == 1234, "free-args", "custom free got another object");
    mc_check(freed == 0, "free-twice", "free method called twice");
    freed++;
    c->tag = 0;
    cork_delete(struct custom, c);
}
static struct cork_managed_buffer_iface  custom_iface = { custom_free };
static struct cork_managed_buffer *make_managed(int kind)
{
    if (kind == 2) return cork_managed_buffer_new(src, N, freer);
    if (kind == 3) return cork_managed_buffer_new_copy(src, N);
    {
        struct custom  *c = cork_new(struct custom);
        c->parent.buf = src; c->parent.size = N; c->parent.ref_count = 1; c->parent.iface = &custom_iface; c->tag = 1234;
        return &c->parent;
    }
}

static void verify(const struct cork_slice *s, size_t off, size_t len, const char *what)
{
    size_t  i;
    mc_check(s->size == len, "size", "%s: slice has %zu bytes, expected %zu", what, s->size, len);
    if (len == 0 || (s->buf && memcmp(s->buf, data + off, len) == 0)) return;
    for (i = 0; i < len; i++)
        mc_check(((unsigned char *) s->buf)[i] == data[off + i], "contents", "%s: byte %zu of slice(%zu, %zu) is wrong", what, i, off, len);
}
static void is_error(int rc, const char *what, size_t off, size_t len, size_t size)
{
    mc_check(rc == -1, "accepts", "%s(offset %zu, length %zu) of %zu bytes returned %d", what, off, len, size, rc);
    mc_check(cork_error_occurred(), "no-error", "%s(offset %zu, length %zu) of %zu bytes fails without setting an error", what, off, len, size);
    cork_error_clear();
}
static void is_empty(struct cork_slice *d, size_t live, const char *what)
{
    mc_check(cork_slice_is_empty(d) && d->size == 0, "not-empty", "%s fails but leaves something in the result", what);
    cork_slice_finish(d);
    mc_check(track_live() == live, "fail-leak", "a failing %s leaves %zd blocks behind", what, (ssize_t) (track_live() - live));
}
/* every offset/length around a slice of n bytes; the invalid ones have to be refused */
static void ranges(struct cork_slice *s, struct cork_managed_buffer *m, size_t n)
{
    size_t  offs[] = { 0, 1, 2, 3, n ? n - 1 : 0, n, n + 1, n + 2, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - n, SIZE_MAX - n + 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1 };
    int  i, j;
    struct cork_slice  d;
    size_t  live = track_live();
    for (i = 0; i < 14; i++) {
        size_t  lens[] = { 0, 1, 2, 3, n, n + 1, n - offs[i], n - offs[i] + 1, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - offs[i], SIZE_MAX - offs[i] + 1, SIZE_MAX - offs[i] + 2, SIZE_MAX / 2, SIZE_MAX / 2 + 1 };
        for (j = 0; j < 15; j++) {
            size_t  o = offs[i], l = lens[j];
            bool  ok = o <= n && l <= n - o;
            if (ok) continue;
            mc_crash_key("range");
            if (s) {
                memset(&d, 0x55, sizeof d);
                is_error(cork_slice_copy(&d, s, o, l), "cork_slice_copy", o, l, n);
                is_empty(&d, live, "copy");
                memset(&d, 0x55, sizeof d);
                is_error(cork_slice_light_copy(&d, s, o, l), "cork_slice_light_copy", o, l, n);
                is_empty(&d, live, "light_copy");
                d = *s;
                is_error(cork_slice_slice(s, o, l), "cork_slice_slice", o, l, n);
                mc_check(s->buf == d.buf && s->size == d.size, "slice-changed", "a failing cork_slice_slice changed the slice");
            } else {
                memset(&d, 0x55, sizeof d);
                is_error(cork_managed_buffer_slice(&d, m, o, l), "cork_managed_buffer_slice", o, l, n);
                is_empty(&d, live, "managed slice");
            }
            mc_eval(1);
        }
        if (offs[i] <= n) continue;
        if (s) {
            memset(&d, 0x55, sizeof d);
            is_error(cork_slice_copy_offset(&d, s, offs[i]), "cork_slice_copy_offset", offs[i], 0, n);
            is_empty(&d, live, "copy_offset");
            memset(&d, 0x55, sizeof d);
            is_error(cork_slice_light_copy_offset(&d, s, offs[i]), "cork_slice_light_copy_offset", offs[i], 0, n);
            is_empty(&d, live, "light_copy_offset");
            d = *s;
            is_error(cork_slice_slice_offset(s, offs[i]), "cork_slice_slice_offset", offs[i], 0, n);
            mc_check(cork_slice_advance_checked(s, offs[i]) == NULL, "accepts", "advance_checked(%zu) of %zu bytes succeeds", offs[i], n);
            is_error(-1, "cork_slice_advance_checked", offs[i], 0, n);
            mc_check(s->buf == d.buf && s->size == d.size, "slice-changed", "a failing slice_offset changed the slice");
        } else {
            memset(&d, 0x55, sizeof d);
            is_error(cork_managed_buffer_slice_offset(&d, m, offs[i]), "cork_managed_buffer_slice_offset", offs[i], 0, n);
            is_empty(&d, live, "managed slice_offset");
        }
    }
}
static void nulls(void)
{
    struct cork_slice  d;
    memset(&d, 0x55, sizeof d);
    is_error(cork_slice_copy(&d, NULL, 0, 0), "cork_slice_copy(NULL)", 0, 0, 0); is_empty(&d, track_live(), "copy(NULL)");
    memset(&d, 0x55, sizeof d);
    is_error(cork_slice_copy_offset(&d, NULL, 0), "cork_slice_copy_offset(NULL)", 0, 0, 0); is_empty(&d, track_live(), "copy_offset(NULL)");
    memset(&d, 0x55, sizeof d);
    is_error(cork_slice_light_copy(&d, NULL, 0, 0), "cork_slice_light_copy(NULL)", 0, 0, 0); is_empty(&d, track_live(), "light_copy(NULL)");
    memset(&d, 0x55, sizeof d);
    is_error(cork_slice_light_copy_offset(&d, NULL, 0), "cork_slice_light_copy_offset(NULL)", 0, 0, 0); is_empty(&d, track_live(), "light_copy_offset(NULL)");
    is_error(cork_slice_slice(NULL, 0, 0), "cork_slice_slice(NULL)", 0, 0, 0);
    is_error(cork_slice_slice_offset(NULL, 0), "cork_slice_slice_offset(NULL)", 0, 0, 0);
    mc_check(cork_slice_advance_checked(NULL, 0) == NULL, "accepts", "advance_checked(NULL)"); is_error(-1, "cork_slice_advance_checked(NULL)", 0, 0, 0);
    memset(&d, 0x55, sizeof d);
    is_error(cork_managed_buffer_slice(&d, NULL, 0, 0), "cork_managed_buffer_slice(NULL)", 0, 0, 0); is_empty(&d, track_live(), "managed slice(NULL)");
    memset(&d, 0x55, sizeof d);
    is_error(cork_managed_buffer_slice_offset(&d, NULL, 0), "cork_managed_buffer_slice_offset(NULL)", 0, 0, 0); is_empty(&d, track_live(), "managed slice_offset(NULL)");
}

static void run_range(int root)
{
    int  kind = root % nkinds, d, i, j, depth = MC_T(3, 5);
    struct cork_managed_buffer  *m = NULL;
    size_t  base = track_live();
    bool  gone = false;
    N = sizes[root / nkinds];
    for (i = 0; i < 6; i++) data[i] = "\0ab\0bc"[i];
    src = malloc(N);
    memcpy(src, data, N);
    memset(sl, 0, sizeof sl);
    freed = 0;
    if (mc_fresh()) nulls();
    switch (kind) {
        case 0: cork_slice_init_static(&sl[0].s, src, N); break;
        case 1: cork_slice_init_copy_once(&sl[0].s, src, N); break;
        case 2: case 3: case 4:
            m = make_managed(kind);
            if (mc_fresh()) ranges(NULL, m, N);
            mc_check((mc_choose(2) ? cork_managed_buffer_slice(&sl[0].s, m, 0, N) : cork_managed_buffer_slice_offset(&sl[0].s, m, 0)) == 0, "refuses", "slicing the whole managed buffer fails");
            cork_managed_buffer_unref(m);
            break;
        case 5: {
            struct cork_buffer  *b = cork_buffer_new();
            cork_buffer_set(b, src, N);
            mc_check(cork_buffer_to_slice(b, &sl[0].s) == 0, "refuses", "buffer_to_slice fails");
            break; }
    }
    sl[0].used = true; sl[0].len = N; sl[0].parent = -1; sl[0].off = 0;
    for (d = 0; d < depth; d++) {
        int  who, op, t, v[MS], nv = 0, rc = 0, form;
        size_t  o, l;
        uint64_t  h = root;
        for (i = 0; i < MS; i++) {
            if (!sl[i].used) continue;
            v[nv++] = i;
            verify(&sl[i].s, sl[i].off, sl[i].len, "");
            for (j = 0; j < MS; j++) {
                bool  eq;
                if (!sl[j].used) continue;
                eq = sl[i].len == sl[j].len && memcmp(data + sl[i].off, data + sl[j].off, sl[i].len) == 0;
                mc_check(!!cork_slice_equal(&sl[i].s, &sl[j].s) == eq, "equal", "equal(%zu:%zu, %zu:%zu) is not %d", sl[i].off, sl[i].len, sl[j].off, sl[j].len, eq);
            }
            h = mc_h(h, sl[i].off * 64 + sl[i].len * 8 + sl[i].light + i * 1000);
            h = mc_h(h, sl[i].light ? 2 + sl[i].parent : 1);
            /* where the bytes are: in the source, or the slice sharing them */
            for (j = 0; j < i; j++) if (sl[j].used) h = mc_h(h, (uintptr_t) sl[i].s.buf - sl[i].off == (uintptr_t) sl[j].s.buf - sl[j].off);
            h = mc_h(h, (uintptr_t) sl[i].s.buf - sl[i].off == (uintptr_t) src);
            h = mc_h(h, (uintptr_t) sl[i].s.iface);
            h = mc_h(h, sl[i].s.user_data == NULL ? 0 : sl[i].s.user_data == (void *) m ? 1 : 2);
        }
        if (mc_seen(h, depth - d)) break;
        if (nv == 0) break;
        who = v[nv > 1 ? mc_choose(nv) : 0];
        if (mc_fresh()) ranges(&sl[who].s, NULL, sl[who].len);
        verify(&sl[who].s, sl[who].off, sl[who].len, "after refused operations");
        op = mc_choose(4);           /* copy, light copy, slice in place, finish */
        mc_step();
        if (op == 3) {
            bool  parent = false;
            for (i = 0; i < MS; i++) parent |= sl[i].used && sl[i].light && sl[i].parent == who;
            if (parent) continue;
            mc_log("finish %d", who);
            cork_slice_finish(&sl[who].s);
            mc_check(cork_slice_is_empty(&sl[who].s) && sl[who].s.size == 0, "finish", "slice is not empty after finish");
            sl[who].used = false;
            continue;
        }
        o = sl[who].len ? mc_choose(sl[who].len + 1) : 0;
        form = mc_choose(2);         /* with a length, or the _offset variant */
        l = form ? sl[who].len - o : (size_t) mc_choose(sl[who].len - o + 1);
        if (op < 2) {
            bool  fast = (d + o + l) & 1;
            struct cork_slice  *S = &sl[who].s, *D;
            const void  *was;
            for (t = 0; t < MS && sl[t].used; t++) ;
            if (t == MS) continue;
            D = &sl[t].s;
            mc_log("slice %d = %scopy%s%s of %d (%zu, %zu)", t, op ? "light_" : "", form ? "_offset" : "", fast ? "_fast" : "", who, o, l);
            memset(D, 0x55, sizeof *D);
            was = S->buf;
            if (op == 0) rc = form ? (fast ? cork_slice_copy_offset_fast(D, S, o) : cork_slice_copy_offset(D, S, o)) : (fast ? cork_slice_copy_fast(D, S, o, l) : cork_slice_copy(D, S, o, l));
            else rc = form ? (fast ? cork_slice_light_copy_offset_fast(D, S, o) : cork_slice_light_copy_offset(D, S, o)) : (fast ? cork_slice_light_copy_fast(D, S, o, l) : cork_slice_light_copy(D, S, o, l));
            mc_check(rc == 0 && !cork_error_occurred(), "refuses", "copy (%zu, %zu) of %zu bytes fails", o, l, sl[who].len);
            sl[t].used = true; sl[t].light = op == 1; sl[t].parent = who; sl[t].off = sl[who].off + o; sl[t].len = l;
            verify(S, sl[who].off, sl[who].len, "source of a copy");
            mc_check(D->buf == S->buf + o, "shares", "a slice and its %scopy don't share their bytes", op ? "light " : "");
            if (kind == 1 && op == 0) mc_check((const char *) D->buf < (const char *) src || (const char *) D->buf > (const char *) src + N, "copied", "a copy of a copy-once slice uses the source");
            if (op == 0 && (kind != 1 || (const char *) was < (const char *) src || (const char *) was > (const char *) src + N)) mc_check(was == S->buf, "copied-again", "the bytes of a slice are copied again");
            if (!sl[who].light && kind == 1 && op == 0) mc_cover("copy-once slice copied");
        } else {
            int  how = form ? mc_choose(4) : mc_choose(2);
            const void  *was = sl[who].s.buf, *r;
            bool  parent = false;
            for (i = 0; i < MS; i++) parent |= sl[i].used && sl[i].light && sl[i].parent == who;
            (void) parent;
            mc_log("slice %d in place (%zu, %zu) variant %d", who, o, l, how);
            if (!form) rc = how ? cork_slice_slice_fast(&sl[who].s, o, l) : cork_slice_slice(&sl[who].s, o, l);
            else if (how < 2) rc = how ? cork_slice_slice_offset_fast(&sl[who].s, o) : cork_slice_slice_offset(&sl[who].s, o);
            else {
                r = how == 2 ? cork_slice_advance(&sl[who].s, o) : cork_slice_advance_checked(&sl[who].s, o);
                mc_check(r == was, "advance", "advance returned %p, expected the old start %p", r, was);
            }
            mc_check(rc == 0, "refuses", "slice (%zu, %zu) of %zu bytes fails", o, l, sl[who].len);
            sl[who].off += o; sl[who].len = l;
        }
    }
    /* light copies first; the source of a copy-once slice only has to last as long as
     * the original slice and its light copies */
    for (j = 0; j < MS; j++)
        for (i = MS - 1; i >= 0; i--)
            if (sl[i].used && sl[i].light) {
                int  k;
                bool  parent = false;
                for (k = 0; k < MS; k++) parent |= sl[k].used && sl[k].light && sl[k].parent == i;
                if (!parent) { verify(&sl[i].s, sl[i].off, sl[i].len, "light copy"); cork_slice_finish(&sl[i].s); sl[i].used = false; }
            }
    if (kind == 1 || kind == 3 || kind == 5) {
        if (sl[0].used) { verify(&sl[0].s, sl[0].off, sl[0].len, "original"); cork_slice_finish(&sl[0].s); sl[0].used = false; }
        free(src);
        gone = true;
    }
    for (i = 0; i < MS; i++) if (sl[i].used) { verify(&sl[i].s, sl[i].off, sl[i].len, gone ? "copy after its source is gone" : "copy"); cork_slice_finish(&sl[i].s); if (gone) mc_cover("deep copy outlives source"); }
    if (!gone) free(src);
    if (kind == 2 || kind == 4) mc_check(freed == 1, "free-missing", "the managed buffer was freed %d times", freed);
    mc_check(track_live() == base, "leak", "%zu blocks left", track_live() - base);
}

/* ---- large sizes: slices of slices around every edge ---- */
static void run_big(int r)
{
    int  kind = r % nkinds, i, lev, op[2];
    struct cork_managed_buffer  *m = NULL;
    struct cork_slice  s[3];
    size_t  base = track_live(), off[3], len[3];
    N = bigs[r / nkinds];
    for (i = 0; i < (int) N; i++) data[i] = (unsigned) i * 2654435761u >> 11;
    src = malloc(N);
    memcpy(src, data, N);
    freed = 0;
    memset(s, 0x55, sizeof s);
    switch (kind) {
        case 0: cork_slice_init_static(&s[0], src, N); break;
        case 1: cork_slice_init_copy_once(&s[0], src, N); break;
        case 2: case 3: case 4:
            m = make_managed(kind);
            mc_check(m->size == N, "size", "a managed buffer of %zu bytes has %zu", N, m->size);
            if (mc_fresh()) ranges(NULL, m, N);
            mc_check(cork_managed_buffer_slice(&s[0], m, 0, N) == 0, "refuses", "slicing the whole managed buffer fails");
            cork_managed_buffer_unref(m);
            break;
        case 5: {
            struct cork_buffer  *b = cork_buffer_new();
            cork_buffer_set(b, src, N);
            mc_check(cork_buffer_to_slice(b, &s[0]) == 0, "refuses", "buffer_to_slice fails");
            break; }
    }
    off[0] = 0; len[0] = N;
    for (lev = 0; lev < 2; lev++) {
        size_t  offs[] = { 0, 1, 126, 128, 255, 256, 300, len[lev] / 2, 32768, 65535, 65536, len[lev] - 1, len[lev] };
        static const int  few_o[] = { 0, 3, 7, 11 }, few_l[] = { 1, 4, 9 };
        bool  few = lev && N > MC_T(128, 300);
        size_t  o = offs[few ? few_o[mc_choose(4)] : mc_choose(13)], rest, l;
        int  rc;
        if (o > len[lev]) { i = lev; goto done; }
        rest = len[lev] - o;
        {
            size_t  lens[] = { 0, 1, 127, 128, 255, 256, 257, 65536, rest - 1, rest };
            l = lens[few ? few_l[mc_choose(3)] : mc_choose(10)];
        }
        if (l > rest) { i = lev; goto done; }
        op[lev] = few ? (op[0] + 1) % 3 : mc_choose(3);
        mc_log("%s (%zu, %zu) of %zu bytes", op[lev] == 0 ? "copy" : op[lev] == 1 ? "light_copy" : "slice in place", o, l, len[lev]);
        mc_step();
        if (op[lev] == 2) {
            rc = cork_slice_copy(&s[lev + 1], &s[lev], 0, len[lev]);
            mc_check(rc == 0, "refuses", "a copy of %zu bytes fails", len[lev]);
            rc = l == rest ? cork_slice_slice_offset(&s[lev + 1], o) : cork_slice_slice(&s[lev + 1], o, l);
        } else if (op[lev] == 0) rc = l == rest ? cork_slice_copy_offset(&s[lev + 1], &s[lev], o) : cork_slice_copy(&s[lev + 1], &s[lev], o, l);
        else rc = l == rest ? cork_slice_light_copy_offset(&s[lev + 1], &s[lev], o) : cork_slice_light_copy(&s[lev + 1], &s[lev], o, l);
        mc_check(rc == 0 && !cork_error_occurred(), "refuses", "(%zu, %zu) of %zu bytes is refused", o, l, len[lev]);
        off[lev + 1] = off[lev] + o; len[lev + 1] = l;
        verify(&s[lev], off[lev], len[lev], "source of a copy");
        verify(&s[lev + 1], off[lev + 1], l, "copy");
        mc_check(!!cork_slice_equal(&s[lev], &s[lev + 1]) == (len[lev] == l && memcmp(data + off[lev], data + off[lev + 1], l) == 0), "equal", "a slice of %zu bytes and (%zu, %zu) of it", len[lev], o, l);
        if (lev == 0 && mc_fresh()) ranges(&s[lev + 1], NULL, l);
    }
    i = 2;
done:
    mc_state(mc_h(mc_h(r, i), off[i] * 100000 + len[i]));
    for (; i >= 0; i--) { verify(&s[i], off[i], len[i], "at the end"); cork_slice_finish(&s[i]); }
    free(src);
    if (kind == 2 || kind == 4) mc_check(freed == 1, "free-missing", "the managed buffer was freed %d times", freed);
    mc_check(track_live() == base, "leak", "%zu blocks left", track_live() - base);
}
/* ---- many references: taken and given back in several orders, with slices among them ---- */
static void run_refs(int r)
{
    static struct cork_slice  many[70001];
    int  kind = 2 + r % 3, n = bigs[r / 3], i, ns = 0, refs = 1, how = mc_choose(3), back = mc_choose(3);
    size_t  base = track_live();
    struct cork_managed_buffer  *m;
    static unsigned char  buf[5] = "hello";
    N = 5;
    src = buf;
    memcpy(data, buf, 5);
    freed = 0;
    m = make_managed(kind);
    mc_log("%d references: %s; given back %s", n, how == 0 ? "plain" : how == 1 ? "slices" : "both", back == 0 ? "in order" : back == 1 ? "backwards" : "but for one, taken again, given back");
    for (i = 1; i < n; i++) {
        if (how == 0 || (how == 2 && i % 2)) { cork_managed_buffer_ref(m); refs++; }
        else if (ns && i % 3 == 0) { mc_check(cork_slice_copy(&many[ns], &many[ns / 2], 0, 5) == 0, "refuses", "copy fails with %d references", i); ns++; }
        else { mc_check(cork_managed_buffer_slice(&many[ns], m, 0, 5) == 0, "refuses", "slice fails with %d references", i); ns++; }
    }
    for (i = 0; i < ns; i += 97) verify(&many[i], 0, 5, "one of many");
    if (back == 2) {
        while (refs > 1) { cork_managed_buffer_unref(m); refs--; }
        mc_check(!freed && track_live() > base, "free-time", "freed with %d of %d references left", refs + ns, n);
        for (i = 1; i < n; i++) { cork_managed_buffer_ref(m); refs++; }
    }
    for (i = 0; i < refs + ns - 1; i++) {
        if (back == 1 ? i < ns : i >= refs - 1) { int  k = back == 1 ? ns - 1 - i : i - (refs - 1); cork_slice_finish(&many[k]); }
        else cork_managed_buffer_unref(m);
        if (kind != 3) mc_check(!freed, "free-time", "freed with %d of %d references left", refs + ns - 1 - i, n);
        if (i % 97 == 0) mc_check(track_live() > base, "free-memory", "freed with %d of %d references left", refs + ns - 1 - i, n);
    }
    mc_check(!freed && track_live() > base, "free-time", "freed with a reference left");
    mc_check(!memcmp(m->buf, "hello", 5), "contents", "the contents change");
    cork_managed_buffer_unref(m);
    if (kind != 3) mc_check(freed == 1, "free-time", "the managed buffer was freed %d times", freed);
    mc_check(track_live() == base, "free-memory", "%zu blocks left", track_live() - base);
    mc_steps(n);
    mc_state(mc_h(mc_h(r, how), back));
}

static void run_life(int root)
{
    int  kind = 2 + root % 3, refs = 1, d, i, depth = MC_T(7, 9), ns = 0;
    size_t  base = track_live();
    struct cork_managed_buffer  *m;
    static unsigned char  buf[5] = "hello";
    N = root / 3 ? 5 : 0;
    src = buf;
    memcpy(data, buf, 5);
    freed = 0;
    memset(sl, 0, sizeof sl);
    m = make_managed(kind);
    for (d = 0; d < depth; d++) {
        int  op = mc_choose(6), v[MS], nv = 0, who = 0, t;
        uint64_t  h = root;
        for (i = 0; i < MS; i++) if (sl[i].used) v[nv++] = i;
        for (t = 0; t < MS && sl[t].used; t++) ;
        mc_step();
        if (op >= 3) { if (nv == 0) continue; who = v[mc_choose(nv)]; }
        switch (op) {
            case 0:
                if (refs == 0 || refs > 3) continue;
                mc_log("ref");
                mc_check(cork_managed_buffer_ref(m) == m, "ref-result", "ref returned another pointer");
                refs++;
                break;
            case 1:
                if (refs == 0) continue;
                mc_log("unref");
                refs--;
                cork_managed_buffer_unref(m);
                break;
            case 2:
                if (refs == 0 || t == MS) continue;
                mc_log("slice %d", t);
                memset(&sl[t].s, 0x55, sizeof sl[t].s);
                mc_check(cork_managed_buffer_slice(&sl[t].s, m, N / 2, N - N / 2) == 0, "refuses", "slice failed");
                sl[t].used = true; sl[t].off = N / 2; sl[t].len = N - N / 2;
                {
                    struct cork_slice  bad;
                    memset(&bad, 0x55, sizeof bad);
                    mc_check(cork_managed_buffer_slice(&bad, m, N + 1, 0) != 0, "accepts", "invalid slice accepted");
                    cork_slice_finish(&bad);
                    cork_error_clear();
                }
                ns++;
                break;
            case 3:
                if (t == MS) continue;
                { int  lt = mc_choose(2);
                memset(&sl[t].s, 0x55, sizeof sl[t].s);
                mc_log("slice %d = %scopy of %d", t, lt ? "light_" : "", who);
                mc_check((lt ? cork_slice_light_copy_offset(&sl[t].s, &sl[who].s, sl[who].len / 2) : cork_slice_copy_offset(&sl[t].s, &sl[who].s, sl[who].len / 2)) == 0, "refuses", "copy failed");
                sl[t].light = lt; }
                sl[t].parent = who;
                sl[t].used = true; sl[t].off = sl[who].off + sl[who].len / 2; sl[t].len = sl[who].len - sl[who].len / 2;
                ns++;
                break;
            case 4:
                { bool  p = false; for (i = 0; i < MS; i++) p |= sl[i].used && sl[i].light && sl[i].parent == who; if (p) continue; }
                mc_log("finish %d", who);
                cork_slice_finish(&sl[who].s);
                if (mc_choose(2)) cork_slice_finish(&sl[who].s);    /* of an empty slice: nothing happens */
                sl[who].used = sl[who].light = false;
                ns--;
                break;
            case 5:
                mc_log("slice %d in place", who);
                mc_check(cork_slice_slice_offset(&sl[who].s, sl[who].len / 2) == 0, "refuses", "slice_offset failed");
                sl[who].off += sl[who].len / 2; sl[who].len -= sl[who].len / 2;
                break;
        }
        if (kind != 3) mc_check(freed == (refs == 0 && ns == 0), "free-time", "freed %d times with %d references and %d slices", freed, refs, ns);
        mc_check((track_live() == base) == (refs == 0 && ns == 0), "free-memory", "%zd blocks with %d references and %d slices", (ssize_t) (track_live() - base), refs, ns);
        for (i = 0; i < MS; i++) { if (sl[i].used) verify(&sl[i].s, sl[i].off, sl[i].len, "slice"); h = mc_h(h, sl[i].used ? sl[i].len + 1 : 0); }
        mc_state(mc_h(h, refs));
        if (refs == 0 && ns == 0) { mc_cover("released"); return; }
    }
    while (refs--) cork_managed_buffer_unref(m);
    for (i = 0; i < MS; i++) if (sl[i].used && sl[i].light) { verify(&sl[i].s, sl[i].off, sl[i].len, "slice"); cork_slice_finish(&sl[i].s); sl[i].used = false; }
    for (i = 0; i < MS; i++) if (sl[i].used) { verify(&sl[i].s, sl[i].off, sl[i].len, "slice"); cork_slice_finish(&sl[i].s); }
    if (kind != 3) mc_check(freed == 1, "free-time", "freed %d times", freed);
    mc_check(track_live() == base, "free-memory", "%zu blocks left", track_live() - base);
}
void mc_run(int root) { cork_error_clear(); life = !strcmp(mc_arg, "life"); if (root >= BIG0) { if (life) run_refs(root - BIG0); else run_big(root - BIG0); } else if (life) run_life(root); else run_range(root); }
