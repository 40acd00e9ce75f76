#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <grp.h>
#include <signal.h>
#include "mc.h"
#include "scratch.h"
#define NOBODY 65534
static char  dir[400];
const char *scratch_enter(void)
{
    const char  *base = getenv("MC_SCRATCH");
    if (base == NULL) mc_internal("no $MC_SCRATCH");
    if (geteuid() == 0) {
        struct stat  st;
        if (stat(base, &st) != 0 || st.st_uid != NOBODY) mc_internal("%s is not the unprivileged user's", base);
        if (setgroups(0, NULL) != 0 || setresgid(NOBODY, NOBODY, NOBODY) != 0 || setresuid(NOBODY, NOBODY, NOBODY) != 0)
            mc_internal("cannot become an unprivileged user");
    }
    snprintf(dir, sizeof dir, "%s/p%d", base, (int) getpid());
    if (mkdir(dir, 0755) != 0 && errno != EEXIST) mc_internal("mkdir %s: %s", dir, strerror(errno));
    if (chdir(dir) != 0) mc_internal("chdir %s: %s", dir, strerror(errno));
    scratch_wipe(dir);
    return dir;
}
static void wipe_at(int fd, int depth)
{
    DIR  *d = fdopendir(fd);
    struct dirent  *e;
    if (d == NULL) { close(fd); return; }
    while ((e = readdir(d)) != NULL) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        if (unlinkat(dirfd(d), e->d_name, 0) == 0) continue;
        if (depth < 60) {
            int  c = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
            if (c < 0) { fchmodat(dirfd(d), e->d_name, 0755, 0); c = openat(dirfd(d), e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC); }
            if (c >= 0) { fchmod(c, 0755); wipe_at(c, depth + 1); }
        }
        unlinkat(dirfd(d), e->d_name, AT_REMOVEDIR);
    }
    closedir(d);
}
void scratch_wipe(const char *path)
{
    int  fd;
    if (dir[0] == 0 || strncmp(path, dir, strlen(dir)) != 0) mc_internal("%s is not in the scratch directory", path);
    fd = open(path, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
    if (fd < 0) mc_internal("cannot open %s", path);
    wipe_at(fd, 0);
}
