from seed import seed
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)
SRC = "src/libcork/"
INC = "include/libcork/"

S("C34-dotdot", "C34", [(SRC + "posix/directory-walker.c", 'strcmp(entry->d_name, "..") == 0) {', 'strncmp(entry->d_name, "..", 2) == 0) {')],
r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <libcork/core.h>
#include <libcork/os.h>
static int seen;
static int on_file(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{ if (strcmp(rel, "..b") == 0) seen++; return 0; }
static int on_dir(struct cork_dir_walker *w, const char *full, const char *rel, const char *base)
{ return 0; }
int main(void)
{
    struct cork_dir_walker  w = { on_dir, on_file, on_dir };
    FILE  *f;
    if (mkdir("d", 0755) != 0 || (f = fopen("d/..b", "w")) == NULL) return 2;
    fclose(f);
    return cork_walk_directory("d", &w) == 0 && seen == 1 ? 0 : 1;
}
''', "an entry whose name starts with two dots but is longer than that", "the walk leaves the entry out")

S("C38-key-malloc", "C38", [(INC + "threads/basics.h", "return cork_calloc(1, sizeof(TYPE)); \\", "return cork_malloc(sizeof(TYPE)); \\")],
r'''
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#include <libcork/core.h>
#include <libcork/threads.h>
struct inst { unsigned char  b[40]; };
cork_tls(struct inst, inst);
static int  bad;
static void *go(void *ud)
{
    struct inst  *i;
    size_t  k;
    void  *p[64];
    for (k = 0; k < 64; k++) { p[k] = malloc(sizeof(struct inst)); memset(p[k], 0xa5, sizeof(struct inst)); }
    for (k = 0; k < 64; k++) free(p[k]);
    i = inst_get();
    for (k = 0; k < sizeof i->b; k++) if (i->b[k] != 0) bad = 1;
    return NULL;
}
int main(void)
{
    pthread_t  t;
    pthread_create(&t, NULL, go, NULL);
    pthread_join(t, NULL);
    go(NULL);
    return bad;
}
''', "a platform without a thread storage class, and memory that has been used before", "a thread's first instance isn't zeroed",
  flags="-pthread -DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0", env="")

S("C09-clear", "C09", [(SRC + "ds/bitset.c", "cork_bitset_clear(struct cork_bitset *set)\n{\n    memset(set->bits, 0, set->byte_count);", "cork_bitset_clear(struct cork_bitset *set)\n{\n    memset(set->bits, 0, set->bit_count / 8);")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    struct cork_bitset  *s = cork_bitset_new(11);
    cork_bitset_set(s, 9, true);
    cork_bitset_clear(s);
    return cork_bitset_get(s, 9) ? 1 : 0;
}
''', "a set whose size isn't a multiple of eight, with a bit in the last byte", "clearing leaves the bits of the last byte")

S("C17-late-run", "C17", [(SRC + "core/ip-address.c", "    if (cur.base != -1) {\n        if (best.base == -1 || cur.len > best.len)\n            best = cur;\n    }\n    if (best.base != -1 && best.len < 2)", "    if (cur.base != -1) {\n        if (best.base == -1 || cur.len >= best.len)\n            best = cur;\n    }\n    if (best.base != -1 && best.len < 2)")],
r'''
#include <string.h>
#include <libcork/core.h>
int main(void)
{
    struct cork_ipv6  ip;
    char  buf[CORK_IPV6_STRING_LENGTH];
    if (cork_ipv6_init(&ip, "1:0:0:2:3:4:0:0") != 0) return 2;
    cork_ipv6_to_raw_string(&ip, buf);
    return strcmp(buf, "1::2:3:4:0:0") == 0 ? 0 : 1;
}
''', "two zero runs of the same length, the second one at the end of the address", "the later run is the one that is shortened")

S("C33-parent-mode", "C33", [(SRC + "posix/files.c", "(&parent_file, mode, flags | CORK_FILE_PERMISSIVE);", "(&parent_file, 0750, flags | CORK_FILE_PERMISSIVE);")],
r'''
#include <sys/stat.h>
#include <libcork/core.h>
#include <libcork/os.h>
int main(void)
{
    struct stat  st;
    struct cork_file  *f = cork_file_new("a/b");
    umask(0);
    if (cork_file_mkdir(f, 0711, CORK_FILE_RECURSIVE) != 0) return 2;
    return stat("a", &st) == 0 && (st.st_mode & 0777) == 0711 ? 0 : 1;
}
''', "a recursive mkdir that has to create a parent, with a mode other than the default", "the parent gets another mode than the one asked for")

S("C05-equal-nul", "C05", [(SRC + "ds/buffer.c", "return (memcmp(buffer1->buf, buffer2->buf, buffer1->size) == 0);", "return (strncmp(buffer1->buf, buffer2->buf, buffer1->size) == 0);")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    struct cork_buffer  a = CORK_BUFFER_INIT(), b = CORK_BUFFER_INIT();
    cork_buffer_set(&a, "a\0b", 3);
    cork_buffer_set(&b, "a\0c", 3);
    return cork_buffer_equal(&a, &b) ? 1 : 0;
}
''', "two buffers of the same size that differ only after a NUL byte", "they compare equal")

S("C16-four-mapped", "C16", [(SRC + "core/ip-address.c", "if (CORK_UNLIKELY(hextets_seen >= 7)) {", "if (CORK_UNLIKELY(hextets_seen > 7)) {")],
r'''
#include <libcork/core.h>
int main(void)
{
    struct cork_ipv6  ip;
    return cork_ipv6_init(&ip, "1:2:3:4:5:6:7:1.2.3.4") == -1 ? 0 : 1;
}
''', "an embedded IPv4 address after seven hextets", "an address that is too long is accepted, or written past its end")

S("C12-set-leak", "C12", [(SRC + "ds/managed-buffer.c", "        dest->iface = &CORK_MANAGED_BUFFER__SLICE;\n        dest->user_data = cork_managed_buffer_ref(buffer);\n        return 0;", "        dest->iface = &CORK_MANAGED_BUFFER__SLICE;\n        dest->user_data = length > 0? cork_managed_buffer_ref(buffer): buffer;\n        return 0;")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
static int  freed;
static void f(void *b, size_t s) { freed++; }
int main(void)
{
    struct cork_managed_buffer  *m = cork_managed_buffer_new("abc", 3, f);
    struct cork_slice  s;
    if (cork_managed_buffer_slice(&s, m, 3, 0) != 0) return 3;
    cork_slice_finish(&s);
    return freed == 0 ? 0 : 1;
}
''', "an empty slice that is finished while others still use the buffer", "the buffer is freed although it still has a reference")



S("C14-xrealloc", "C14", [(SRC + "core/allocator.c", "    void  *result = cork_alloc_xmalloc(alloc, new_size);\n    if (CORK_LIKELY(result != NULL) && ptr != NULL) {\n        size_t  min_size = (new_size < old_size)? new_size: old_size;\n        memcpy(result, ptr, min_size);\n        cork_alloc_free(alloc, ptr, old_size);", "    void  *result = cork_alloc_xmalloc(alloc, new_size);\n    if (CORK_LIKELY(result != NULL) && ptr != NULL) {\n        size_t  min_size = (new_size < old_size)? new_size: old_size;\n        memcpy(result, ptr, min_size);\n        cork_alloc_free(alloc, ptr, min_size);")],
r'''
#include <stdlib.h>
#include <libcork/core.h>
static size_t  freed;
static void *xm(const struct cork_alloc *a, size_t s) { return malloc(s); }
static void fr(const struct cork_alloc *a, void *p, size_t s) { freed = s; free(p); }
int main(void)
{
    struct cork_alloc  *a = cork_alloc_new_alloc(cork_allocator);
    void  *p;
    cork_alloc_set_xmalloc(a, xm);
    cork_alloc_set_free(a, fr);
    p = cork_alloc_xmalloc(a, 20);
    p = cork_alloc_xrealloc(a, p, 20, 5);
    return p != NULL && freed == 20 ? 0 : 1;
}
''', "a custom allocator without its own xrealloc, and a block that shrinks", "the old block is given back with the new size")

S("C18-one-past", "C18", [(SRC + "core/ip-address.c", "    } else if (cidr_prefix > 64) {", "    } else if (cidr_prefix > 65) {")],
r'''
#include <libcork/core.h>
int main(void)
{
    struct cork_ipv6  ip;
    cork_ipv6_init(&ip, "fe80:1:2:3::");
    return cork_ipv6_is_valid_network(&ip, 65) ? 0 : 1;
}
''', "a prefix of exactly 65 bits", "a valid network is refused", flags="")

S("C21-sign", "C21", [(INC + "core/hash.h", "case 12: k2 ^= (uint64_t) (tail[11]) << 24; \\", "case 12: k2 ^= (tail[11]) << 24; \\")],
r'''
#include <string.h>
#include <libcork/core.h>
int main(void)
{
    /* The reference result of MurmurHash3_x64_128 depends on every byte being unsigned. */
    unsigned char  b[12];
    cork_big_hash  h, g, seed;
    memset(b, 0x80, sizeof b);
    memset(&seed, 0, sizeof seed);
    h = cork_big_hash_buffer(seed, b, sizeof b);
    {
        /* computed here, step by step */
        uint64_t  c1 = UINT64_C(0x87c37b91114253d5), c2 = UINT64_C(0x4cf5ad432745937f);
        uint64_t  k1 = UINT64_C(0x8080808080808080), k2 = UINT64_C(0x80808080), h1 = 0, h2 = 0;
        k2 *= c2; k2 = k2 << 33 | k2 >> 31; k2 *= c1; h2 ^= k2;
        k1 *= c1; k1 = k1 << 31 | k1 >> 33; k1 *= c2; h1 ^= k1;
        h1 ^= 12; h2 ^= 12; h1 += h2; h2 += h1;
        h1 = cork_fmix64(h1); h2 = cork_fmix64(h2); h1 += h2; h2 += h1;
        g.u128 = cork_u128_from_64(h1, h2);
    }
    return cork_big_hash_equal(h, g) ? 0 : 1;
}
''', "a tail of at least twelve bytes whose twelfth one has its high bit set", "the hash isn't MurmurHash3 any more", flags="")

S("C23-lost-record", "C23", [(SRC + "core/error.c", "        do {\n            old_head = errors;\n            error->next = old_head;\n        } while", "        error->next = errors;\n        do {\n            old_head = errors;\n        } while")],
r'''
#include <stdlib.h>
#include <pthread.h>
#include <unistd.h>
#include <libcork/core.h>
/* Many threads make their first error at once; at exit every record has to be freed, which
 * LeakSanitizer checks. */
#define N  8
static pthread_barrier_t  b;
static void *go(void *ud)
{
    pthread_barrier_wait(&b);
    cork_error_set_string(1, "x");
    return NULL;
}
int main(void)
{
    int  r, i;
    for (r = 0; r < 400; r++) {
        pthread_t  t[N];
        pthread_barrier_init(&b, NULL, N);
        for (i = 0; i < N; i++) pthread_create(&t[i], NULL, go, NULL);
        for (i = 0; i < N; i++) pthread_join(t[i], NULL);
    }
    return 0;
}
''', "two threads that use the error API for the first time at once", "an error record is lost from the list, or the list ends early, and isn't freed at exit",
  flags="-fsanitize=address -pthread", env="ASAN_OPTIONS=detect_leaks=1 ", timeout=120)

