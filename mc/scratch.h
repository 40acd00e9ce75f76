/* A directory of this process's own below the scratch directory check.py makes ($MC_SCRATCH),
 * entered as an unprivileged user. */
#ifndef SCRATCH_H
#define SCRATCH_H
const char *scratch_enter(void);      /* chdir()s there, returns its absolute path; call in mc_init */
void scratch_wipe(const char *dir);   /* removes dir's contents (never follows links) */
#endif
