/* A tracking cork allocator: counts, sizes, injected failures. */
#ifndef TRACK_H
#define TRACK_H
#include <stddef.h>
#include <stdbool.h>
#include <libcork/core.h>
void track_install(void);             /* cork_set_allocator(tracking allocator) */
struct cork_alloc *track_new(const struct cork_alloc *parent); /* not installed */
size_t track_live(void);              /* number of live blocks */
size_t track_live_bytes(void);
unsigned long track_total(void);      /* allocations so far */
extern bool track_strict;             /* check sizes on free/realloc (mc_fail) */
extern long track_fail_at;            /* fail the n-th next allocation (1-based); 0 = never */
extern bool track_fail_sticky;        /* and all later ones */
extern unsigned long track_failures;
void track_prime(void);                /* let lazily allocated library state come into being */
void track_dump(void);                /* log live blocks */
#endif
