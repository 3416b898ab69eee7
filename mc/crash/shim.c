/* Counts the operations that change files below one directory and kills the
 * process in front of, or in the middle of, the one that was asked for.
 * Preloaded into the checker; armed only in the forked build processes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdio.h>

#define MAXOPS 65536
struct shared {
    atomic_long count;
    char kinds[MAXOPS];
};
static struct shared *sh;
static int armed, torn;
static long target;
static char prefix[4096];
static size_t plen;
static unsigned char flag[65536];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

int mc_init(void)
{
    if (!sh) {
        sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) { sh = 0; return -1; }
    }
    atomic_store(&sh->count, 0);
    return 0;
}

void mc_arm(const char *dir, long n, int t)
{
    strncpy(prefix, dir, sizeof prefix - 1);
    plen = strlen(prefix);
    target = n;
    torn = t;
    memset(flag, 0, sizeof flag);
    armed = 1;
}

long mc_count(void) { return atomic_load(&sh->count); }
const char *mc_kinds(void) { return sh->kinds; }

static void die(void)
{
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

static int inside(const char *path)
{
    if (!armed || !path) return 0;
    if (path[0] == '/') {
        if (strncmp(path, prefix, plen)) return 0;
    }
    size_t n = strlen(path);
    if (n >= 4 && !strcmp(path + n - 4, ".log")) return 0;
    return 1;
}

/* returns 1 when this operation is to be torn */
static int op(char kind)
{
    long n = atomic_fetch_add(&sh->count, 1) + 1;
    if (n <= MAXOPS) sh->kinds[n - 1] = kind;
    if (n == target) {
        if (!torn) die();
        return 1;
    }
    return 0;
}

static int fd_on(int fd) { return armed && fd >= 0 && fd < 65536 && flag[fd]; }

static int opened(int fd, const char *path, int flags)
{
    if (armed && fd >= 0 && fd < 65536)
        flag[fd] = (flags & O_ACCMODE) != O_RDONLY && inside(path);
    return fd;
}

static void opening(const char *path, int flags)
{
    if ((flags & (O_CREAT | O_TRUNC)) && inside(path)) op('o');
}

#define OPENLIKE(name) \
int name(const char *path, int flags, ...) \
{ \
    REAL(int, name, const char *, int, ...); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    opening(path, flags); \
    return opened(real(path, flags, mode), path, flags); \
}
OPENLIKE(open)
OPENLIKE(open64)

#define OPENATLIKE(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    REAL(int, name, int, const char *, int, ...); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    opening(path, flags); \
    return opened(real(dir, path, flags, mode), path, flags); \
}
OPENATLIKE(openat)
OPENATLIKE(openat64)

int close(int fd)
{
    REAL(int, close, int);
    if (armed && fd >= 0 && fd < 65536) flag[fd] = 0;
    return real(fd);
}

FILE *fopen64(const char *path, const char *mode)
{
    REAL(FILE *, fopen64, const char *, const char *);
    return real(path, mode);
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (fd_on(fd) && op('w')) { real(fd, buf, n / 2); die(); }
    return real(fd, buf, n);
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (fd_on(fd) && op('w')) { real(fd, buf, n / 2, off); die(); }
    return real(fd, buf, n, off);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (fd_on(fd) && op('w')) { real(fd, buf, n / 2, off); die(); }
    return real(fd, buf, n, off);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (fd_on(fd) && op('w')) { real(fd, v, n / 2); die(); }
    return real(fd, v, n);
}

ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (fd_on(out) && op('w')) { real(out, in, off, n > 8 ? 4 : n / 2); die(); }
    return real(out, in, off, n);
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    if (fd_on(out) && op('w')) { real(out, in, off, n > 8 ? 4 : n / 2); die(); }
    return real(out, in, off, n);
}

ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (fd_on(out) && op('w')) { real(in, oi, out, oo, n > 8 ? 4 : n / 2, fl); die(); }
    return real(in, oi, out, oo, n, fl);
}

int ftruncate(int fd, off_t n)
{
    REAL(int, ftruncate, int, off_t);
    if (fd_on(fd) && op('t')) die();
    return real(fd, n);
}

int ftruncate64(int fd, off64_t n)
{
    REAL(int, ftruncate64, int, off64_t);
    if (fd_on(fd) && op('t')) die();
    return real(fd, n);
}

int truncate(const char *p, off_t n)
{
    REAL(int, truncate, const char *, off_t);
    if (inside(p) && op('t')) die();
    return real(p, n);
}

int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    if (inside(b) && op('r')) die();
    return real(a, b);
}

int renameat(int x, const char *a, int y, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    if (inside(b) && op('r')) die();
    return real(x, a, y, b);
}

int unlink(const char *p)
{
    REAL(int, unlink, const char *);
    if (inside(p) && op('u')) die();
    return real(p);
}

int unlinkat(int d, const char *p, int fl)
{
    REAL(int, unlinkat, int, const char *, int);
    if (inside(p) && op('u')) die();
    return real(d, p, fl);
}

int rmdir(const char *p)
{
    REAL(int, rmdir, const char *);
    if (inside(p) && op('d')) die();
    return real(p);
}

int mkdir(const char *p, mode_t m)
{
    REAL(int, mkdir, const char *, mode_t);
    if (inside(p) && op('m')) die();
    return real(p, m);
}

int mkdirat(int d, const char *p, mode_t m)
{
    REAL(int, mkdirat, int, const char *, mode_t);
    if (inside(p) && op('m')) die();
    return real(d, p, m);
}

int link(const char *a, const char *b)
{
    REAL(int, link, const char *, const char *);
    if (inside(b) && op('l')) die();
    return real(a, b);
}

int symlink(const char *a, const char *b)
{
    REAL(int, symlink, const char *, const char *);
    if (inside(b) && op('l')) die();
    return real(a, b);
}
