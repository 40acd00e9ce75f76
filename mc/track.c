#include "track.h"
#include "mc.h"

struct hdr { size_t size; unsigned long serial; struct hdr *next, *prev; size_t magic[2]; };
#define MAGIC 0x7ac4a110c8ed0001ULL
static struct hdr  head = { 0, 0, &head, &head, { MAGIC, MAGIC } };
static size_t  nlive, nbytes;
static unsigned long  ntotal;
bool  track_strict = false;
long  track_fail_at = 0;
bool  track_fail_sticky = false;
unsigned long  track_failures = 0;

static bool should_fail(void)
{
    if (track_fail_at > 0) {
        if (--track_fail_at == 0) {
            if (track_fail_sticky) track_fail_at = 1;
            track_failures++;
            return true;
        }
    }
    return false;
}

static void *get(size_t size, bool zero)
{
    struct hdr  *h;
    if (should_fail()) return NULL;
    if (size > ((size_t) 1 << 40)) return NULL;
    h = malloc(sizeof *h + size);
    if (h == NULL) return NULL;
    memset(h + 1, zero ? 0 : 0xa5, size);
    h->size = size;
    h->serial = ++ntotal;
    h->magic[0] = h->magic[1] = MAGIC;
    h->next = &head; h->prev = head.prev;
    head.prev->next = h; head.prev = h;
    nlive++; nbytes += size;
    return h + 1;
}

static struct hdr *check(void *ptr, const char *what)
{
    struct hdr  *h = (struct hdr *) ptr - 1;
    if (h->magic[0] != MAGIC || h->magic[1] != MAGIC)
        mc_fail("alloc-foreign", "%s of %p, which is no live block of the installed allocator", what, ptr);
    return h;
}

static void put(void *ptr, size_t size)
{
    struct hdr  *h;
    if (ptr == NULL) return;
    h = check(ptr, "free");
    if (track_strict && h->size != size)
        mc_fail("alloc-size", "block #%lu of %zu bytes freed with size %zu", h->serial, h->size, size);
    h->next->prev = h->prev; h->prev->next = h->next;
    h->magic[0] = 0;
    nlive--; nbytes -= h->size;
    memset(ptr, 0xdd, h->size);
    free(h);
}

static void *re(void *ptr, size_t old_size, size_t new_size)
{
    void  *n;
    struct hdr  *h;
    if (ptr == NULL) {
        if (track_strict && old_size != 0)
            mc_fail("alloc-size", "realloc of NULL with old size %zu", old_size);
        return get(new_size, false);
    }
    h = check(ptr, "realloc");
    if (track_strict && h->size != old_size)
        mc_fail("alloc-size", "block #%lu of %zu bytes reallocated with old size %zu", h->serial,
                h->size, old_size);
    n = get(new_size, false);
    if (n == NULL) return NULL;
    memcpy(n, ptr, h->size < new_size ? h->size : new_size);
    put(ptr, h->size);
    return n;
}

static void *x_malloc(const struct cork_alloc *a, size_t size) { (void) a; return get(size, false); }
static void *x_calloc(const struct cork_alloc *a, size_t c, size_t size)
{
    (void) a;
    if (size != 0 && c > SIZE_MAX / size) return NULL;
    return get(c * size, true);
}
static void *x_realloc(const struct cork_alloc *a, void *p, size_t o, size_t n) { (void) a; return re(p, o, n); }
static void x_free(const struct cork_alloc *a, void *p, size_t n) { (void) a; put(p, n); }

struct cork_alloc *track_new(const struct cork_alloc *parent)
{
    struct cork_alloc  *a = cork_alloc_new_alloc(parent);
    cork_alloc_set_xmalloc(a, x_malloc);
    cork_alloc_set_xcalloc(a, x_calloc);
    cork_alloc_set_xrealloc(a, x_realloc);
    cork_alloc_set_free(a, x_free);
    return a;
}
void track_install(void) { cork_set_allocator(track_new(cork_allocator)); }
size_t track_live(void) { return nlive; }
size_t track_live_bytes(void) { return nbytes; }
unsigned long track_total(void) { return ntotal; }
void track_dump(void)
{
    struct hdr  *h;
    for (h = head.next; h != &head; h = h->next)
        mc_log("  live block #%lu, %zu bytes: %s", h->serial, h->size,
               mc_quote(h + 1, h->size < 32 ? h->size : 32));
}

void track_prime(void)
{
    int  i;
    for (i = 0; i < 3; i++) {
        cork_error_set_printf(1, "%600s", "x");
        cork_error_prefix_printf("%600s", "y");
        cork_error_message();
        cork_error_clear();
    }
}
