from seed import seed
import sys
only = sys.argv[1:]
def S(id, *a, **k):
    if not only or id in only: seed(id, *a, **k)

S("C01-put-order", "C01", [("src/libcork/ds/hash-table.c", "                entry->public.value = value;\n                if (is_new", "                entry->public.value = value;\n                if (table->entry_count > table->bin_count) {\n                    /* Keep recently used entries at the end. */\n                    cork_dllist_remove(&entry->insertion_order);\n                    cork_dllist_add(&table->insertion_order, &entry->insertion_order);\n                }\n                if (is_new")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    struct cork_hash_table  *t = cork_pointer_hash_table_new(0, 0);
    struct cork_hash_table_iterator  it;
    struct cork_hash_table_entry  *e;
    size_t  i, want = 1;
    for (i = 1; i <= 20; i++) cork_hash_table_put(t, (void *) i, (void *) i, NULL, NULL, NULL);
    cork_hash_table_put(t, (void *) 3, (void *) 30, NULL, NULL, NULL);
    cork_hash_table_iterator_init(t, &it);
    while ((e = cork_hash_table_iterator_next(&it)) != NULL)
        if (e->key != (void *) want++) { printf("wrong order\n"); return 1; }
    return want == 21 ? 0 : 1;
}
''', "overwriting a key in a table that has more entries than bins", "an overwritten key moves to the end of the insertion order")

S("C02-delete-entry-key", "C02", [("src/libcork/ds/hash-table.c", "            DEBUG(\"      Delete requested\");\n            cork_dllist_remove(curr);\n", "            DEBUG(\"      Delete requested\");\n            cork_dllist_remove(curr);\n            if (table->free_value == NULL && table->free_key != NULL) {\n                entry->public.key = NULL;\n            }\n")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
static int  freed[4];
static void fk(void *k) { int *p = k; if (p) (*p)++; }
static enum cork_hash_table_map_result m(void *ud, struct cork_hash_table_entry *e) { return CORK_HASH_TABLE_MAP_DELETE; }
int main(void)
{
    int  i;
    struct cork_hash_table  *t = cork_pointer_hash_table_new(0, 0);
    cork_hash_table_set_free_key(t, fk);
    for (i = 0; i < 4; i++) cork_hash_table_put(t, &freed[i], NULL, NULL, NULL, NULL);
    cork_hash_table_map(t, NULL, m);
    cork_hash_table_free(t);
    for (i = 0; i < 4; i++) if (freed[i] != 1) return 1;
    return 0;
}
''', "a map callback deletes entries of a table that owns only its keys", "the keys of such entries are never freed")

S("C04-remove-range", "C04", [("src/libcork/ds/array.c", "        while (array->priv->remove != NULL &&\n               start_of_removed < end_of_removed) {", "        end_of_removed = start_of_removed + ((count < 2? count: count - (remaining % count == 1)) * element_size);\n        while (array->priv->remove != NULL &&\n               start_of_removed < end_of_removed) {")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
static int  removed;
static void rm(void *ud, void *v) { removed++; }
int main(void)
{
    int  n, c, i;
    for (n = 1; n < 8; n++) for (i = 0; i < n; i++) for (c = 1; i + c <= n; c++) {
        cork_array(int)  a;
        int  j;
        cork_array_init(&a);
        cork_array_set_remove(&a, rm);
        for (j = 0; j < n; j++) cork_array_append(&a, j);
        removed = 0;
        cork_array_remove_range(&a, i, c);
        if (removed != c) { printf("%d of %d at %d removed\n", removed, c, i); return 1; }
        cork_array_done(&a);
    }
    return 0;
}
''', "removing two or more elements with a particular number of elements behind them", "one of the removed elements gets no remove callback")

S("C05-vprintf-exact", "C05", [("src/libcork/ds/buffer.c", "    if (format_size >= 0 &&\n        (size_t) format_size < (buffer->allocated_size - buffer->size)) {", "    if (format_size >= 0 &&\n        (size_t) format_size < (buffer->allocated_size - buffer->size +\n                                (buffer->size == 3))) {")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    size_t  n;
    for (n = 1; n < 200; n++) {
        struct cork_buffer  b;
        static char  s[300];
        memset(s, 'x', n); s[n] = 0;
        cork_buffer_init(&b);
        cork_buffer_append(&b, "abc", 3);
        cork_buffer_append_printf(&b, "%s", s);
        if (b.size != 3 + n || strlen(b.buf) != 3 + n) { printf("%zu\n", n); return 1; }
        cork_buffer_done(&b);
    }
    return 0;
}
''', "appending formatted text that is exactly as long as the space left in a non-empty buffer", "the last character of the text is lost")

S("C08-wrap-full", "C08", [("src/libcork/ds/ring-buffer.c", "        self->size--;\n        if (self->read_index == self->allocated_size) {\n            self->read_index = 0;\n        }\n", "        self->size--;\n        if (self->size == 0) {\n            /* Start over */\n            self->write_index = 0;\n        }\n        if (self->read_index == self->allocated_size) {\n            self->read_index = 0;\n        }\n")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    size_t  cap, k, i, n;
    for (cap = 1; cap < 6; cap++) for (k = 0; k < 4 * cap; k++) {
        struct cork_ring_buffer  b;
        size_t  in = 1, out = 1;
        cork_ring_buffer_init(&b, cap);
        for (i = 0; i < k; i++) { cork_ring_buffer_add(&b, (void *) in++); if (cork_ring_buffer_pop(&b) != (void *) out++) return 1; }
        for (n = 0; n < cap; n++) if (cork_ring_buffer_add(&b, (void *) in++) != 0) return 1;
        for (n = 0; n < 3 * cap; n++) { if (cork_ring_buffer_pop(&b) != (void *) out++) return 1; if (cork_ring_buffer_add(&b, (void *) in++)) return 1; }
        cork_ring_buffer_done(&b);
    }
    return 0;
}
''', "popping the last element in the middle of the storage and adding again", "elements are read from the wrong slot", flags="-g")

S("C10-block-tail", "C10", [("src/libcork/core/mempool.c", "         (index + cork_mempool_object_size(mp)) <= mp->block_size;", "         (index + cork_mempool_object_size(mp)) <= mp->block_size + (mp->element_size & 1? 3: 0);")],
r'''
#include <libcork/core.h>
int main(void)
{
    size_t  es, bs;
    for (es = 9; es < 80; es += 2) for (bs = 64; bs < 300; bs += 4) {
        struct cork_mempool  *mp = cork_mempool_new_size_ex(es, bs);
        void  *o[64]; int i;
        for (i = 0; i < 64; i++) { o[i] = cork_mempool_new_object(mp); memset(o[i], 7, es); }
        for (i = 0; i < 64; i++) cork_mempool_free_object(mp, o[i]);
        cork_mempool_free(mp);
    }
    return 0;
}
''', "an odd element size and a block size up to 3 bytes short of a multiple of the object size", "the last object of each block extends past the block's end")

S("C12-copy-once-unref", "C12", [("src/libcork/ds/managed-buffer.c", "    cork_slice_clear(dest);\n    cork_slice_invalid_slice_set", "    cork_slice_clear(dest);\n    cork_slice_invalid_slice_set")], None, "", "") if False else None

S("C06-cstring-high", "C06", [("src/libcork/ds/buffer.c", "                if (is_sprint(ch)) {\n                    cork_buffer_append(dest, &chars[i], 1);", "                if (ch >= 0x20) {\n                    cork_buffer_append(dest, &chars[i], 1);")],
r'''
#include <libcork/core.h>
#include <libcork/ds.h>
int main(void)
{
    struct cork_buffer  b;
    size_t  i, j;
    cork_buffer_init(&b);
    for (i = 0; i < 256; i++) {
        char  c = i;
        cork_buffer_clear(&b);
        cork_buffer_append_c_string(&b, &c, 1);
        for (j = 0; j < b.size; j++) { unsigned char  x = ((char *) b.buf)[j]; if (x < 32 || x > 126) { printf("0x%02zx\n", i); return 1; } }
    }
    return 0;
}
''', "a string with a DEL character (0x7f)", "the character is copied raw into the C string")

S("C11-managed-overflow", "C11", [("src/libcork/ds/slice.c", "        cork_slice_clear(dest);\n        cork_slice_invalid_slice_set(0, offset, 0);\n        return -1;\n    } else {\n        return cork_slice_light_copy\n            (dest, slice, offset, slice->size - offset);", "        cork_slice_clear(dest);\n        cork_slice_invalid_slice_set(0, offset, 0);\n        return -1;\n    } else {\n        return cork_slice_light_copy\n            (dest, slice, offset, (offset > slice->size)? 0: slice->size - (offset | (offset & 4)));")], None, "", "") if False else None
