/* C14: all memory comes from the installed allocator and goes back to it with its exact size,
 * whichever methods that allocator supplies. */
#include <sys/mman.h>
#include <sys/wait.h>
#include <libcork/core.h>
#include <libcork/ds.h>
#include <libcork/os.h>
#include <libcork/threads.h>
#include <libcork/helpers/gc.h>
#include "mc.h"
const char *mc_harness_name = HARNESS_NAME;

/* ---- the library calling the C library's allocation functions directly ---- */
static bool  armed;
static void direct(const char *what) { if (armed) mc_fail("bypass", "the library calls %s itself instead of using the installed allocator", what); }
/* (the allocator's own structure comes from its parent, before it is installed) */
static void  *own[64];
static int  nown;
static void *keep(void *p) { if (p && nown < 64) own[nown++] = p; return p; }
void *mcw_malloc(size_t n) { direct("malloc"); return keep(malloc(n)); }
void *mcw_calloc(size_t c, size_t n) { direct("calloc"); return keep(calloc(c, n)); }
void *mcw_realloc(void *p, size_t n) { direct("realloc"); return realloc(p, n); }
void mcw_free(void *p)
{
    int  i;
    for (i = 0; i < nown; i++) if (own[i] == p) { own[i] = own[--nown]; free(p); return; }
    if (p != NULL) direct("free");
    free(p);
}
char *mcw_strdup(const char *s) { direct("strdup"); return strdup(s); }
char *mcw_strndup(const char *s, size_t n) { direct("strndup"); return strndup(s, n); }
int mcw_vasprintf(char **p, const char *f, va_list a) { direct("vasprintf"); return vasprintf(p, f, a); }

/* ---- the installed allocator ---- */
struct hdr { size_t n; unsigned long magic; };
#define MAGIC 0x7e57ab1e7e57ab1eul
static struct cork_alloc  *mine;
static int  tag;
static long  nlive, nalloc;
static void me(const struct cork_alloc *a)
{
    mc_check(a == mine, "alloc-argument", "a method is called with another allocator (%p, not %p)", a, mine);
    mc_check(a->user_data == &tag, "user-data", "a method sees another user data pointer");
}
static void *got(size_t n, bool zero)
{
    struct hdr  *h = malloc(sizeof *h + n);
    h->n = n; h->magic = MAGIC;
    memset(h + 1, zero ? 0 : 0xa5, n);
    nlive++; nalloc++;
    return h + 1;
}
static void put(void *p, size_t n, const char *what)
{
    struct hdr  *h = (struct hdr *) p - 1;
    mc_check(p != NULL, "free-null", "%s is given NULL", what);
    mc_check(h->magic == MAGIC, "foreign", "%s is given memory that isn't a live block of this allocator", what);
    mc_check(h->n == n, "size", "%s is given size %zu for a block of %zu bytes", what, n, h->n);
    h->magic = 0;
    memset(p, 0xdd, h->n);
    nlive--;
    free(h);
}
static void *re(void *p, size_t o, size_t n, const char *what)
{
    void  *r;
    if (p == NULL) { mc_check(o == 0, "size", "%s of NULL with old size %zu", what, o); return got(n, false); }
    r = got(n, false);
    memcpy(r, p, o < n ? o : n);
    put(p, o, what);
    return r;
}
static void *a_malloc(const struct cork_alloc *a, size_t n) { me(a); return got(n, false); }
static void *a_calloc(const struct cork_alloc *a, size_t c, size_t n) { me(a); return got(c * n, true); }
static void *a_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { me(a); return re(p, o, n, "realloc"); }
static void a_free(const struct cork_alloc *a, void *p, size_t n) { me(a); put(p, n, "free"); }

static struct shared { int released; int wrong; long live; }  *sh;
static void release(void *ud)
{
    sh->released++;
    if (ud != &tag) sh->wrong++;
    sh->live = nlive;
}
/* bits: xcalloc, xrealloc, calloc, malloc, realloc supplied; 32: debug allocator on top */
#define NCONF 33
static void install(int conf)
{
    struct cork_alloc  *a = cork_alloc_new_alloc(cork_allocator);
    static int  first;
    mine = a;
    cork_alloc_set_user_data(a, &first, NULL);
    cork_alloc_set_user_data(a, &tag, release);
    cork_alloc_set_xmalloc(a, a_malloc);
    cork_alloc_set_free(a, a_free);
    if (conf & 1) cork_alloc_set_xcalloc(a, a_calloc);
    if (conf & 2) cork_alloc_set_xrealloc(a, a_realloc);
    if (conf & 4) cork_alloc_set_calloc(a, a_calloc);
    if (conf & 8) cork_alloc_set_malloc(a, a_malloc);
    if (conf & 16) cork_alloc_set_realloc(a, a_realloc);
    cork_set_allocator(conf == 32 ? cork_debug_alloc_new(a) : a);
}

/* ---- life cycles; each takes up to D operations ---- */
#define D  MC_T(3, 4)
#define OP(n)  (mc_step(), mc_choose(n))
static char  big[4000];
static int  sz(void) { static const int  s[] = { 1, 7, 40, 700 }; return s[mc_choose(4)]; }
static void t_buffer(void)
{
    struct cork_buffer  in, *b = &in;
    int  d, heap = mc_choose(2), end;
    if (heap) b = cork_buffer_new(); else cork_buffer_init(b);
    for (d = 0; d < D; d++) switch (OP(6)) {
        case 0: cork_buffer_append(b, big, sz()); break;
        case 1: cork_buffer_set(b, big, sz()); break;
        case 2: cork_buffer_append_printf(b, "%*d", sz(), 5); break;
        case 3: cork_buffer_clear(b); break;
        case 4: cork_buffer_ensure_size(b, sz()); break;
        case 5: cork_buffer_append_c_string(b, big, 3); break;
    }
    end = heap ? mc_choose(4) : 3 + mc_choose(1);
    if (end == 0) { struct cork_managed_buffer  *m = cork_buffer_to_managed_buffer(b); cork_managed_buffer_unref(m); }
    else if (end == 1) { struct cork_slice  s; cork_buffer_to_slice(b, &s); cork_slice_finish(&s); }
    else if (end == 2) {
        struct cork_stream_consumer  *c = cork_buffer_to_stream_consumer(b);
        cork_stream_consumer_data(c, big, 100, true);
        cork_stream_consumer_eof(c);
        cork_stream_consumer_free(c);
        cork_buffer_free(b);
    } else if (heap) cork_buffer_free(b); else cork_buffer_done(b);
}
static void nofree(void *p, size_t n) { }
static void t_slice(void)
{
    struct cork_slice  s[4];
    int  n = 0, d, kind = mc_choose(4);
    struct cork_managed_buffer  *m = NULL;
    if (kind == 0) m = cork_managed_buffer_new_copy(big, sz());
    else if (kind == 1) m = cork_managed_buffer_new(big, sz(), nofree);
    if (m) { cork_managed_buffer_slice(&s[n++], m, 0, 1); cork_managed_buffer_unref(m); }
    else if (kind == 2) cork_slice_init_copy_once(&s[n++], big, sz());
    else cork_slice_init_static(&s[n++], big, sz());
    for (d = 0; d < D; d++) switch (OP(5)) {
        case 0: if (n < 4) { cork_slice_copy(&s[n], &s[n - 1], 0, 1); n++; } break;
        case 1: if (n < 4) { cork_slice_light_copy(&s[n], &s[n - 1], 0, 1); n++; } break;
        case 2: cork_slice_slice(&s[n - 1], 0, 1); break;
        case 3: if (n < 4) { cork_slice_copy(&s[n], &s[n - 1], 99999, 1); cork_slice_finish(&s[n]); cork_error_clear(); } break;
        case 4: if (n > 1) cork_slice_finish(&s[--n]); break;
    }
    while (n > 0) cork_slice_finish(&s[--n]);
}
static void t_array(void)
{
    struct wide { char c[24]; };
    cork_array(struct wide)  a, b;
    struct wide  w;
    int  d, i, n;
    memset(&w, 0, sizeof w);
    cork_array_init(&a);
    cork_array_init(&b);
    for (d = 0; d < D; d++) switch (OP(6)) {
        case 0: cork_array_append(&a, w); break;
        case 1: n = sz() % 50; for (i = 0; i < n; i++) cork_array_append(&a, w); break;
        case 2: cork_array_ensure_size(&a, sz()); break;
        case 3: cork_array_clear(&a); break;
        case 4: cork_array_copy(&b, &a, NULL, NULL); break;
        case 5: if (cork_array_size(&a)) cork_array_remove(&a, 0); break;
    }
    cork_array_done(&a);
    cork_array_done(&b);
}
static void t_strings(void)
{
    struct cork_string_array  a, b;
    const char  *s;
    int  d, i, n;
    cork_string_array_init(&a);
    cork_string_array_init(&b);
    for (d = 0; d < D; d++) switch (OP(6)) {
        case 0: cork_string_array_append(&a, "x"); break;
        case 1: n = sz() % 20; for (i = 0; i < n; i++) cork_string_array_append(&a, "a longer string than the others"); break;
        case 2: cork_array_clear(&a); break;
        case 3: cork_string_array_copy(&b, &a); break;
        case 4: s = cork_strndup(big, sz()); cork_strfree(s); break;
        case 5: { cork_array(struct cork_buffer *)  p; cork_pointer_array_init(&p, (cork_free_f) cork_buffer_free);
            n = 1 + sz() % 12; for (i = 0; i < n; i++) cork_array_append(&p, cork_buffer_new());
            if (n > 2) cork_array_remove(&p, 1);
            cork_array_done(&p); } break;
    }
    cork_array_done(&a);
    cork_array_done(&b);
}
static enum cork_hash_table_map_result del(void *ud, struct cork_hash_table_entry *e) { return CORK_HASH_TABLE_MAP_DELETE; }
static void t_hash(void)
{
    static const size_t  init[] = { 0, 9, 64 };
    struct cork_hash_table  *t;
    int  d, i, n;
    bool  is_new;
    size_t  is = init[mc_choose(3)];
    bool  str = mc_choose(2);
    t = str ? cork_string_hash_table_new(is, 0) : cork_pointer_hash_table_new(is, 0);
    if (str) cork_hash_table_set_free_key(t, (cork_free_f) cork_strfree);
    for (d = 0; d < D; d++) switch (OP(5)) {
        case 0: case 1:
            n = d == 0 ? 60 : 3;
            for (i = 0; i < n; i++) {
                char  k[10];
                struct cork_hash_table_entry  *e;
                sprintf(k, "k%d", i);
                if (str) { if (cork_hash_table_get(t, k) == NULL) { e = cork_hash_table_get_or_create(t, (void *) cork_strdup(k), &is_new); e->value = big; } }
                else cork_hash_table_put(t, (void *) (uintptr_t) (i + 1), big, NULL, NULL, NULL);
            }
            break;
        case 2: cork_hash_table_ensure_size(t, sz()); break;
        case 3: if (mc_choose(2)) cork_hash_table_clear(t); else cork_hash_table_map(t, NULL, del); break;
        case 4: cork_hash_table_delete(t, str ? (void *) "k1" : (void *) 1, NULL, NULL); break;
    }
    cork_hash_table_free(t);
}
static void t_fixed(void)
{
    int  n = sz();
    switch (OP(5)) {
        case 0: { struct cork_bitset  *b = cork_bitset_new(n); cork_bitset_set(b, 0, 1); cork_bitset_free(b); } break;
        case 1: { struct cork_bitset  b; cork_bitset_init(&b, n); cork_bitset_clear(&b); cork_bitset_done(&b); } break;
        case 2: { struct cork_ring_buffer  *r = cork_ring_buffer_new(n); cork_ring_buffer_add(r, big); cork_ring_buffer_free(r); } break;
        case 3: { struct cork_ring_buffer  r; cork_ring_buffer_init(&r, n); cork_ring_buffer_pop(&r); cork_ring_buffer_done(&r); } break;
        case 4: { struct cork_dllist  l; cork_dllist_init(&l); } break;
    }
}
static void t_mempool(void)
{
    static const size_t  bs[] = { 16, 100, 4096 };
    struct cork_mempool  *p = cork_mempool_new_size_ex(sz(), bs[mc_choose(3)]);
    void  *o[64];
    int  n = 0, d, i, k;
    for (d = 0; d < D; d++) switch (OP(3)) {
        case 0: if (n < 64) o[n++] = cork_mempool_new_object(p); break;
        case 1: k = sz() % 12; for (i = 0; i < k && n < 64; i++) o[n++] = cork_mempool_new_object(p); break;
        case 2: if (n) cork_mempool_free_object(p, o[--n]); break;
    }
    while (n) cork_mempool_free_object(p, o[--n]);
    cork_mempool_free(p);
}
struct node { struct node *next; char pad[12]; };
_free_(node) { }
_recurse_(node) { struct node  *self = obj; recurse(gc, self->next, ud); }
_gc_(node);
static void t_gc(void)
{
    struct node  *n[4];
    int  c = 0, d, i;
    for (d = 0; d < D; d++) switch (OP(3)) {
        case 0: if (c < 4) { n[c] = cork_gc_new(node); n[c]->next = NULL; c++; } break;
        case 1: if (c > 1 && n[c - 1]->next == NULL) n[c - 1]->next = cork_gc_incref(n[c - 2]); break;
        case 2: if (c && n[0]->next == NULL) n[0]->next = cork_gc_incref(n[c - 1]); break;
    }
    for (i = 0; i < c; i++) cork_gc_decref(n[i]);
    cork_gc_done();
}
static void t_env(void)
{
    struct cork_env  *e = mc_choose(2) ? cork_env_new() : cork_env_clone_current();
    int  d;
    for (d = 0; d < D; d++) switch (OP(5)) {
        case 0: cork_env_add(e, "A", "value"); break;
        case 1: cork_env_add(e, "A", "a different, longer value"); break;
        case 2: cork_env_add_printf(e, "B", "%*d", sz(), 3); break;
        case 3: cork_env_remove(e, "A"); break;
        case 4: cork_env_get(e, "A"); cork_env_remove(e, "nothing"); break;
    }
    if (mc_choose(2)) cork_env_free(e);
    else {
        struct cork_exec  *x = cork_exec_new("/bin/true");
        cork_exec_set_env(x, e);
        if (mc_choose(2)) cork_exec_set_env(x, cork_env_new());
        cork_exec_free(x);
    }
}
static void t_exec(void)
{
    static char *const  params[] = { "prog", "one", "two", NULL };
    int  d, k = mc_choose(3);
    struct cork_exec  *x = k == 0 ? cork_exec_new("prog") : k == 1 ? cork_exec_new_with_params("prog", "one", "two", NULL) : cork_exec_new_with_param_array("prog", params);
    for (d = 0; d < D; d++) switch (OP(3)) {
        case 0: cork_exec_add_param(x, "param"); break;
        case 1: cork_exec_set_cwd(x, d ? "/tmp" : "/a/longer/directory/name"); break;
        case 2: cork_exec_set_env(x, cork_env_new()); break;
    }
    switch (mc_choose(3)) {
        case 0: cork_exec_free(x); break;
        case 1: { struct cork_subprocess  *s = cork_subprocess_new_exec(x, NULL, NULL, NULL); cork_subprocess_free(s); } break;
        case 2: { struct cork_subprocess_group  *g = cork_subprocess_group_new();
            struct cork_buffer  b = CORK_BUFFER_INIT();
            struct cork_stream_consumer  *c = cork_buffer_to_stream_consumer(&b);
            cork_subprocess_group_add(g, cork_subprocess_new_exec(x, c, NULL, NULL));
            cork_subprocess_group_add(g, cork_subprocess_new_exec(cork_exec_new("other"), NULL, c, NULL));
            cork_subprocess_group_free(g); cork_stream_consumer_free(c); cork_buffer_done(&b); } break;
    }
}
static void t_path(void)
{
    static const char *ps[] = { "", "/", "a", "/a/b/c" };
    struct cork_path  *p = cork_path_new(ps[mc_choose(4)]), *q;
    int  d;
    for (d = 0; d < D; d++) switch (OP(10)) {
        case 0: cork_path_append(p, "more"); break;
        case 1: cork_path_append(p, "/abs"); break;
        case 2: cork_path_set_basename(p); break;
        case 3: cork_path_set_dirname(p); break;
        case 4: cork_path_set_absolute(p); break;
        case 5: q = cork_path_join(p, "x"); cork_path_append_path(p, q); cork_path_free(q); break;
        case 6: q = cork_path_clone(p); cork_path_free(p); p = q; break;
        case 7: q = cork_path_dirname(p); cork_path_free(q); q = cork_path_basename(p); cork_path_free(q); break;
        case 8: q = cork_path_absolute(p); cork_path_free(q); q = cork_path_cwd(); cork_path_free(q); break;
        case 9: cork_path_set(p, d & 1 ? NULL : "a much longer path than the one before"); break;
    }
    cork_path_free(p);
}
static void t_lists(void)
{
    static const char *ls[] = { "", "/usr", "/usr:/bin:/nowhere", ":::" };
    struct cork_path_list  *l = cork_path_list_new(ls[mc_choose(4)]);
    struct cork_file_list  *fl = cork_file_list_new_empty();
    int  d;
    for (d = 0; d < D; d++) switch (OP(6)) {
        case 0: cork_path_list_add(l, cork_path_new("extra")); break;
        case 1: cork_path_list_to_string(l); break;
        case 2: { struct cork_file  *p = cork_path_list_find_file(l, "."); if (p) cork_file_free(p); else cork_error_clear(); } break;
        case 3: { struct cork_file_list  *f = cork_path_list_find_files(l, "."); if (f) cork_file_list_free(f); cork_error_clear(); } break;
        case 4: cork_file_list_add(fl, cork_file_new("/usr")); break;
        case 5: { struct cork_path_list  *l2 = cork_path_list_new("a:b"); struct cork_file_list  *f = cork_file_list_new(l2); cork_path_list_free(l2); cork_file_list_free(f); } break;
    }
    cork_path_list_free(l);
    cork_file_list_free(fl);
}
static int no_entry(struct cork_file *f, const char *n, void *ud) { return 0; }
static int en(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return CORK_SKIP_DIRECTORY; }
static int fi(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return 0; }
static int le(struct cork_dir_walker *w, const char *f, const char *r, const char *b) { return 0; }
static void t_files(void)
{
    static const char *fs[] = { "/nonexistent/x", "/etc", "/etc/passwd", "/" };
    const char  *name = fs[mc_choose(4)];
    struct cork_file  *f = cork_file_new_from_path(cork_path_new(name));
    bool  ex;
    enum cork_file_type  ty;
    int  d;
    for (d = 0; d < D; d++) switch (OP(5)) {
        case 0: cork_file_exists(f, &ex); break;
        case 1: cork_file_type(f, &ty); break;
        case 2: cork_file_iterate_directory(f, no_entry, NULL); break;
        case 3: { struct cork_dir_walker  w = { en, fi, le }; if (cork_walk_directory(name, &w)) {} } break;
        case 4: {
            struct cork_path  *p = mc_choose(2) ? cork_path_home() : cork_path_user_cache_path();
            struct cork_path_list  *l = mc_choose(2) ? cork_path_config_paths() : cork_path_data_paths();
            if (p) cork_path_free(p);
            if (l) cork_path_list_free(l); } break;
    }
    cork_error_clear();
    cork_file_free(f);
}
static int run0(void *ud) { cork_error_set_printf(7, "%300s", "error in a thread"); return -1; }
static void t_thread(void)
{
    struct cork_thread  *t = cork_thread_new("a thread", NULL, NULL, run0);
    if (OP(2)) cork_thread_free(t);
    else {      /* the thread's own error state stays until exit */
        long  before = nlive;
        (void) before;
        cork_thread_free(t);
    }
}
static void t_error(void)
{
    int  d;
    for (d = 0; d < D; d++) switch (OP(5)) {
        case 0: cork_error_set_printf(3, "%*d", sz(), 1); break;
        case 1: cork_error_prefix_printf("%*d", sz(), 1); break;
        case 2: cork_error_set_string(3, "x"); break;
        case 3: cork_error_clear(); break;
        case 4: cork_error_prefix_string("prefix"); break;
    }
}
static void t_streams(void)
{
    struct cork_stream_consumer  *c;
    FILE  *f = tmpfile();
    switch (OP(4)) {
        case 0: c = cork_fd_consumer_new(fileno(f)); cork_stream_consumer_data(c, "abc", 3, true); cork_stream_consumer_eof(c); cork_stream_consumer_free(c); break;
        case 1: c = cork_file_consumer_new(f); cork_stream_consumer_data(c, "abc", 3, true); cork_stream_consumer_eof(c); cork_stream_consumer_free(c); break;
        case 2: c = cork_file_from_path_consumer_new("/dev/null", 1); if (c) { cork_stream_consumer_eof(c); cork_stream_consumer_free(c); } break;
        case 3: c = cork_file_from_path_consumer_new("/nonexistent/x", 1); if (c) cork_stream_consumer_free(c); cork_error_clear(); break;
    }
    fclose(f);
}
static void t_stamp(void)
{
    struct cork_buffer  b = CORK_BUFFER_INIT();
    cork_timestamp  t;
    cork_timestamp_init_msec(&t, 123456, 789);
    cork_timestamp_format_utc(t, "%Y-%m-%d %H:%M:%S.%3f", &b);
    cork_buffer_done(&b);
    OP(1);
}
/* The allocation functions themselves: what a block holds outlives every resize. */
static struct raw { unsigned char *p; size_t n; int seed; }  raws[3];
static void raw_fill(struct raw *r, int seed) { size_t  i; r->seed = seed; for (i = 0; i < r->n; i++) r->p[i] = seed + i * 3; }
static void raw_check(struct raw *r, size_t n, const char *when)
{
    size_t  i;
    for (i = 0; i < n; i++) mc_check(r->p[i] == (unsigned char) (r->seed + i * 3), "contents", "%s: byte %zu of %zu is lost", when, i, n);
}
static void t_blocks(void)
{
    int  d, k = 0, i;
    size_t  n;
    memset(raws, 0, sizeof raws);
    for (d = 0; d < D; d++) {
        struct raw  *r = &raws[k];
        int  op = OP(6);
        if (op == 5) { k = (k + 1) % 2; r = &raws[k]; op = 0; }
        if (op == 0 && r->p != NULL) { raw_check(r, r->n, "before free"); cork_free(r->p, r->n); r->p = NULL; r->n = 0; }
        n = sz();
        if (r->p == NULL && op <= 2) {
            int  how = mc_choose(op == 2 ? 2 : 4);
            switch (op * 4 + how) {
                case 0: r->p = cork_malloc(n); break;
                case 1: r->p = cork_xmalloc(n); break;
                case 2: r->p = cork_realloc(NULL, 0, n); break;
                case 3: r->p = cork_xrealloc(NULL, 0, n); break;
                case 4: r->p = cork_calloc(1, n); break;
                case 5: r->p = cork_xcalloc(n, 1); break;
                case 6: r->p = cork_calloc(n, 1); break;
                case 7: r->p = cork_xreallocf(NULL, 0, n); break;
                case 8: { const char  *s = cork_strndup(big, n); mc_check(strlen(s) == n && memcmp(s, big, n) == 0, "contents", "a duplicated string of %zu bytes is wrong", n); cork_strfree(s); } break;
                case 9: { const char  *s = cork_xstrndup(big, n); mc_check(strlen(s) == n && memcmp(s, big, n) == 0, "contents", "a duplicated string of %zu bytes is wrong", n); cork_strfree(s); } break;
            }
            if (op == 2) continue;
            mc_check(r->p != NULL, "result", "no block of %zu bytes", n);
            r->n = n;
            if (op == 1 && how != 3) for (i = 0; i < (int) n; i++) mc_check(r->p[i] == 0, "zeroed", "byte %d of a cleared block is %02x", i, r->p[i]);
            raw_fill(r, 17 * d + k + 1);
        } else if (r->p != NULL) {
            size_t  keep = n < r->n ? n : r->n;
            unsigned char  *q = op % 3 == 0 ? cork_xreallocf(r->p, r->n, n) : op % 3 == 1 ? cork_realloc(r->p, r->n, n) : cork_xrealloc(r->p, r->n, n);
            mc_check(q != NULL, "result", "no block of %zu bytes", n);
            r->p = q;
            raw_check(r, keep, "after a resize");
            r->n = n;
            raw_fill(r, 17 * d + k + 7);
        }
    }
    for (k = 0; k < 2; k++) if (raws[k].p != NULL) { raw_check(&raws[k], raws[k].n, "at the end"); cork_free(raws[k].p, raws[k].n); }
}
/* sizes around the limits of narrower types */
struct lump { char c[8]; };
static void lump_free(void *p) { (void) p; }
static struct cork_gc_obj_iface  lump_iface = { lump_free, NULL };
static void t_large(void)
{
    static const size_t  ns[] = { 200, 239, 247, 248, 255, 256, 257, 300, 65500, 65511, 65519, 65520, 65527, 65528, 65535, 65536, 65537, 70000, 131073 };
    static const size_t  olds[] = { 1, 255, 300, 65536, 66000, 140000 };
    int  how = mc_choose(12);
    size_t  n = ns[mc_choose(19)], old, keep;
    struct raw  r = { NULL, n, 3 };
    char  *t;
    const char  *s;
    mc_step();
    if (how < 5) {
        switch (how) {
            case 0: r.p = cork_malloc(n); break;
            case 1: r.p = cork_xmalloc(n); break;
            case 2: r.p = cork_calloc(1, n); break;
            case 3: r.p = cork_xcalloc(n, 1); break;
            case 4: r.p = cork_xreallocf(NULL, 0, n); break;
        }
        raw_fill(&r, 3);
        raw_check(&r, n, "before free");
        cork_free(r.p, n);
    } else if (how < 8) {
        r.n = old = olds[mc_choose(6)];
        r.p = cork_malloc(old);
        raw_fill(&r, 9);
        keep = n < old ? n : old;
        r.p = how == 5 ? cork_realloc(r.p, old, n) : how == 6 ? cork_xrealloc(r.p, old, n) : cork_xreallocf(r.p, old, n);
        raw_check(&r, keep, "after a resize");
        r.n = n;
        raw_fill(&r, 4);
        cork_free(r.p, n);
    } else if (how < 11) {
        t = malloc(n + 2);
        memset(t, 'z', n); t[n - 1] = 'y'; t[n] = how == 10 ? 'Q' : 0; t[n + 1] = 0;
        s = how == 8 ? cork_strdup(t) : how == 9 ? cork_xstrdup(t) : cork_strndup(t, n);
        mc_check(strlen(s) == n && memcmp(s, t, n) == 0, "contents", "a duplicated string of %zu bytes is wrong", n);
        cork_strfree(s);
        free(t);
    } else {
        struct lump  *a = cork_gc_alloc(n, &lump_iface);
        memset(a, 5, n);
        cork_gc_incref(a); cork_gc_decref(a); cork_gc_decref(a);
        cork_gc_done();
    }
}
static const struct { const char *name; void (*f)(void); }  types[] = {
    { "buffers", t_buffer }, { "slices and managed buffers", t_slice }, { "arrays", t_array }, { "string and pointer arrays", t_strings },
    { "hash tables", t_hash }, { "bitsets and ring buffers", t_fixed }, { "memory pools", t_mempool }, { "garbage collection", t_gc },
    { "environments", t_env }, { "execs and subprocesses", t_exec }, { "paths", t_path }, { "path and file lists", t_lists },
    { "files", t_files }, { "threads", t_thread }, { "errors", t_error }, { "streams", t_streams }, { "timestamps", t_stamp }, { "plain blocks", t_blocks }, { "large blocks", t_large },
};
#define NT 19
int mc_roots(void) { return NCONF * (NT + 1); }
void mc_root_name(int r, char *b, size_t n)
{
    int  c = r % NCONF;
    snprintf(b, n, "%s; allocator with%s", r / NCONF < NT ? types[r / NCONF].name : "process exit", "");
    if (c == 32) strncat(b, " the debugging allocator on top", n - strlen(b) - 1);
    else {
        static const char *m[] = { " xcalloc", " xrealloc", " calloc", " malloc", " realloc" };
        int  i;
        strncat(b, " xmalloc free", n - strlen(b) - 1);
        for (i = 0; i < 5; i++) if (c >> i & 1) strncat(b, m[i], n - strlen(b) - 1);
    }
}
void mc_init(void)
{
    memset(big, 'b', sizeof big);
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void prime(void)
{
    int  i;
    for (i = 0; i < 3; i++) {
        cork_error_set_printf(1, "%2000s", "x");
        cork_error_prefix_printf("%4000s", "y");
        cork_error_prefix_printf("%6000s", "y");
        cork_error_clear();
    }
}
static int  exit_conf, exit_type;
static void cleanup_fn(void) { }
static void at_exit_child(void *ud)
{
    install(exit_conf);
    armed = true;
    cork_cleanup_at_exit(5, cleanup_fn);
    cork_cleanup_at_exit(-5, cleanup_fn);
    if (exit_type & 2) cork_error_set_string(4, "left behind");
    cork_current_thread_get_id();
    if (exit_type & 1) { struct cork_thread  *t = cork_thread_new("t", NULL, NULL, run0); if (cork_thread_start(t) == 0) cork_thread_join(t); }
    exit(0);
}
void mc_run(int root)
{
    static int  installed = -1;
    int  conf = root % NCONF, type = root / NCONF;
    long  base;
    if (type == NT) {
        int  st;
        exit_conf = conf;
        exit_type = mc_choose(4);
        mc_log("exit %d", exit_type);
        memset(sh, 0, sizeof *sh);
        mc_crash_key("exit");
        mc_step();
        st = mc_in_child(at_exit_child, NULL);
        (void) st;
        mc_check(sh->released == 1 && sh->wrong == 0, "release", "the allocator's user data was released %d times at exit%s", sh->released, sh->wrong ? ", with another pointer" : "");
        mc_check(sh->live == 0, "exit-leak", "%ld blocks were not returned when the allocator was released at exit", sh->live);
        mc_cover("exits");
        return;
    }
    if (installed < 0) { install(conf); prime(); installed = conf; }
    base = nlive;
    armed = true;
    mc_crash_key("lifecycle");
    types[type].f();
    armed = false;
    mc_check(nlive == base, "leak", "%ld blocks remain after everything was freed", nlive - base);
    mc_state(mc_h(mc_h(root, nalloc), 0));
    nalloc = 0;
}
