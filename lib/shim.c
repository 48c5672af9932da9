/* LD_PRELOAD shim for the blake2 tool: logs and, by plan, disturbs the system calls that touch its inputs and
 * its standard output.
 *   SHIM_DIR   paths below it are inputs          SHIM_LOG  event log (one line per event)
 *   SHIM_PLAN  ';'-separated rules "op target lo hi action"
 *     op      open read mmap stat write
 *     target  file name (last component), stdin, stdout, or *
 *     lo hi   which calls (per target and op, from 0)
 *     action  E<errno> fail   S<n> at most n bytes   Z end of file   R<seed> random short transfers and EINTR
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NF 4096
static char *names[NF];
static unsigned cnt[NF][5];
static const char *dir, *plan;
static int logfd = -1;
static unsigned long long rng;
enum { OPEN, READ, MMAP, STAT, WRITE };
static const char *opname[] = {"open", "read", "mmap", "stat", "write"};

__attribute__((constructor)) static void init(void) {
    dir = getenv("SHIM_DIR");
    plan = getenv("SHIM_PLAN");
    const char *l = getenv("SHIM_LOG");
    if (l) {
        int f = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        logfd = fcntl(f, F_DUPFD_CLOEXEC, 700);
        syscall(SYS_close, f);
    }
    names[0] = "stdin";
    names[1] = "stdout";
}
static void logev(int op, const char *t, unsigned k, long want, long got, const char *act) {
    if (logfd < 0) return;
    char b[600];
    int n = snprintf(b, sizeof b, "%s %u %ld %ld %s %s\n", opname[op], k, want, got, act, t);
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, logfd, b, n);
}
static unsigned long long rnd(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng;
}
/* 0: nothing planned. Otherwise the action's letter; *v its number. */
static char lookup(int op, const char *t, unsigned k, long *v) {
    const char *p = plan;
    while (p && *p) {
        char o[16], tg[256], a[64];
        unsigned lo, hi;
        int n = 0;
        if (sscanf(p, "%15s %255s %u %u %63[^;]%n", o, tg, &lo, &hi, a, &n) >= 5) {
            if (!strcmp(o, opname[op]) && (!strcmp(tg, "*") || !strcmp(tg, t)) && k >= lo && k <= hi) {
                *v = atol(a + 1);
                return a[0];
            }
        }
        p = strchr(p, ';');
        if (p) p++;
    }
    return 0;
}
static const char *base(const char *p) {
    const char *s = strrchr(p, '/');
    return s ? s + 1 : p;
}
static int tracked_path(const char *p) { return dir && p && !strncmp(p, dir, strlen(dir)); }
static const char *tracked(int fd) { return fd >= 0 && fd < NF ? names[fd] : 0; }

static unsigned opens[4096];
static unsigned hash_name(const char *s) {
    unsigned h = 5381;
    while (*s) h = h * 33 + (unsigned char)*s++;
    return h % 4096;
}
static int do_open(int dfd, const char *p, int flags, mode_t m) {
    int tr = tracked_path(p);
    if (tr) {
        long v = 0;
        unsigned k = opens[hash_name(p)]++;
        char a = lookup(OPEN, base(p), k, &v);
        if (a == 'E') {
            logev(OPEN, base(p), k, 0, -v, "fault");
            errno = v;
            return -1;
        }
    }
    int fd = syscall(SYS_openat, dfd, p, flags, m);
    if (tr && fd >= 0 && fd < NF) {
        names[fd] = strdup(base(p));
        memset(cnt[fd], 0, sizeof cnt[fd]);
        logev(OPEN, names[fd], 0, 0, fd, "real");
    }
    return fd;
}
#define OPENBODY(dfd)                                         \
    mode_t m = 0;                                             \
    if (flags & (O_CREAT | __O_TMPFILE)) {                    \
        va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
    }                                                         \
    return do_open(dfd, p, flags, m);
int open(const char *p, int flags, ...) { OPENBODY(AT_FDCWD) }
int open64(const char *p, int flags, ...) { OPENBODY(AT_FDCWD) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(d) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(d) }

int close(int fd) {
    if (fd > 2 && fd < NF) names[fd] = 0;
    return syscall(SYS_close, fd);
}
/* how many bytes the call may move; <0: -errno */
static long limit(int op, int fd, const char *t, size_t n, const char **act) {
    long v = 0;
    unsigned k = cnt[fd][op]++;
    char a = lookup(op, t, k, &v);
    *act = "real";
    switch (a) {
    case 'E': *act = "fault"; return -v;
    case 'Z': *act = "eof"; return 0;
    case 'S': *act = "short"; return (size_t)v < n ? v : (long)n;
    case 'R':
        if (!rng) rng = v * 2654435761u + 88172645463325252ull;
        switch (rnd() % 8) {
        case 0: case 1: *act = "eintr"; return -EINTR;
        case 2: *act = "short"; return 1;
        case 3: *act = "short"; return rnd() % n + 1;
        case 4: *act = "short"; { long x = rnd() % 300 + 1; return x < (long)n ? x : (long)n; }
        case 5: *act = "short"; return n > 1 ? n - 1 : n;
        default: return n;
        }
    }
    return n;
}
ssize_t read(int fd, void *b, size_t n) {
    const char *t = tracked(fd);
    if (!t || fd == 1 || n == 0) return syscall(SYS_read, fd, b, n);
    const char *act;
    unsigned k = cnt[fd][READ];
    long l = limit(READ, fd, t, n, &act);
    if (l < 0) {
        logev(READ, t, k, n, l, act);
        errno = -l;
        return -1;
    }
    ssize_t r = l == 0 ? 0 : syscall(SYS_read, fd, b, (size_t)l);
    logev(READ, t, k, n, r, act);
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    const char *t = tracked(fd);
    if (!t || fd == 1 || n == 0) return syscall(SYS_pread64, fd, b, n, o);
    const char *act;
    unsigned k = cnt[fd][READ];
    long l = limit(READ, fd, t, n, &act);
    if (l < 0) {
        logev(READ, t, k, n, l, act);
        errno = -l;
        return -1;
    }
    ssize_t r = l == 0 ? 0 : syscall(SYS_pread64, fd, b, (size_t)l, o);
    logev(READ, t, k, n, r, act);
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!tracked(fd)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd != 1 || n == 0) return syscall(SYS_write, fd, b, n);
    const char *act;
    unsigned k = cnt[fd][WRITE];
    long l = limit(WRITE, fd, "stdout", n, &act);
    if (l < 0) {
        logev(WRITE, "stdout", k, n, l, act);
        errno = -l;
        return -1;
    }
    ssize_t r = syscall(SYS_write, fd, b, (size_t)l);
    logev(WRITE, "stdout", k, n, r, act);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd != 1) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static int maybe_fail(int op, int fd) {
    const char *t = tracked(fd);
    if (!t || fd == 1) return 0;
    long v = 0;
    unsigned k = cnt[fd][op]++;
    char a = lookup(op, t, k, &v);
    logev(op, t, k, 0, a == 'E' ? -v : 0, a == 'E' ? "fault" : "real");
    if (a == 'E') {
        errno = v;
        return 1;
    }
    return 0;
}
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) {
    if (!(f & MAP_ANONYMOUS) && maybe_fail(MMAP, fd)) return MAP_FAILED;
    return (void *)syscall(SYS_mmap, a, n, p, f, fd, o);
}
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return mmap64(a, n, p, f, fd, o); }
int fstat64(int fd, struct stat64 *s) {
    if (maybe_fail(STAT, fd)) return -1;
    return syscall(SYS_fstat, fd, s);
}
int fstat(int fd, struct stat *s) {
    if (maybe_fail(STAT, fd)) return -1;
    return syscall(SYS_fstat, fd, s);
}
int statx(int d, const char *p, int fl, unsigned m, struct statx *s) {
    const char *volatile q = p; /* (declared non-null, yet the standard library probes with a null path) */
    const char *z = q;
    if (z && !*z && maybe_fail(STAT, d)) return -1;
    return syscall(SYS_statx, d, z, fl, m, s);
}
