/* The library's file-system calls, on a virtual root: absolute paths live below fsx_root, which is
 * also the current directory; nothing outside can be named.  Each call can be made to fail. */
#ifndef FSX_H
#define FSX_H
#include <stdbool.h>
#define FSX_CALLS
extern char fsx_root[400];
extern bool fsx_faults;          /* ask mc_choose_dev() at every call */
extern int fsx_injected;         /* failures injected so far (interruptions not counted) */
extern int fsx_interrupted;
extern int fsx_errno;            /* of the first failure */
extern const char *fsx_where;
void fsx_init(void);             /* in mc_init */
void fsx_reset(void);            /* forget directories and counters */
int  fsx_open_dirs(void);        /* directory handles the library has open */
void fsx_enter(const char *sub); /* root := scratch/sub, wiped; chdir there */
void fsx_build(const char *spec);
/* "d/" directory, "d!" mode 0, "d=" mode 0555, "l>t" link, "p|" fifo, "f" file */
enum { WIDE, DEEP, LONG, BUSHY, FSX_NBIG };
extern char fsx_bigtree[FSX_NBIG][11000];     /* specs of large trees, after fsx_grow() */
extern const char *fsx_bign[FSX_NBIG];
void fsx_grow(void);
#define FSX_MAX 160
struct fsx_snap { int n; struct { char path[1000]; char type; unsigned mode; char target[60]; } e[FSX_MAX]; };
void fsx_snapshot(struct fsx_snap *s);
const char *fsx_diff(const struct fsx_snap *a, const struct fsx_snap *b);   /* NULL: same */
bool fsx_subset(const struct fsx_snap *a, const struct fsx_snap *b, const char **what);
const char *fsx_real(const char *path);  /* rotating buffers */
#endif
