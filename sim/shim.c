/* LD_PRELOAD seam between the process and the operating system.
 *
 * File calls on paths below a scratch prefix go to a handler (a python callback in
 * disk.py) that decides what they do; everything else passes through. Clock reads
 * come from a virtual clock while one is running. Built by sim/env.py.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <stdio.h>

enum { OPEN = 1, READ, WRITE, CLOSE, FSYNC, RENAME, UNLINK, RMDIR, MKDIR, TRUNC,
       LINK, SYMLINK, DUP, OTHER, CHMOD };

/* result >= 0, or -errno */
typedef long (*handler_t)(int op, int fd, const char *path, const char *path2,
                          long a, long b, void *buf);

static handler_t handler;
static char prefix[PATH_MAX];
static size_t prefix_len;
#define MAXFD 65536
static unsigned char tracked[MAXFD];
static __thread int inside;

#define REAL(ret, name, args) \
    static ret(*real) args; \
    if (!real) real = (ret(*) args)dlsym(RTLD_NEXT, name)

void shim_files(const char *p, handler_t h) {
    handler = NULL;
    if (p) {
        strncpy(prefix, p, PATH_MAX - 1);
        prefix_len = strlen(prefix);
    }
    handler = p ? h : NULL;
}
void shim_bypass(int on) { inside = on; }
void shim_track(int fd, int on) { if (fd >= 0 && fd < MAXFD) tracked[fd] = on; }
int shim_present(void) { return 1; }

static int fd_on(int fd) {
    return handler && !inside && fd >= 0 && fd < MAXFD && tracked[fd];
}
static int path_on(int dirfd, const char *path) {
    char cwd[PATH_MAX];
    if (!handler || inside || !path) return 0;
    if (path[0] == '/')
        return !strncmp(path, prefix, prefix_len) &&
               (path[prefix_len] == '/' || path[prefix_len] == 0);
    if (dirfd != AT_FDCWD) return fd_on(dirfd);
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return !strncmp(cwd, prefix, prefix_len) &&
           (cwd[prefix_len] == '/' || cwd[prefix_len] == 0);
}
static long call(int op, int fd, const char *p, const char *q, long a, long b, void *buf) {
    inside = 1;
    long r = handler(op, fd, p, q, a, b, buf);
    inside = 0;
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    int fd = (int)call(OPEN, dirfd, path, NULL, flags, mode, NULL);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    return fd;
}
#define MODE() mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
#define OPENFN(name) int name(const char *path, int flags, ...) { MODE() \
    if (path_on(AT_FDCWD, path)) return do_open(AT_FDCWD, path, flags, mode); \
    REAL(int, #name, (const char *, int, ...)); return real(path, flags, mode); }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name) int name(int dirfd, const char *path, int flags, ...) { MODE() \
    if (path_on(dirfd, path)) return do_open(dirfd, path, flags, mode); \
    REAL(int, #name, (int, const char *, int, ...)); return real(dirfd, path, flags, mode); }
OPENATFN(openat)
OPENATFN(openat64)
#define OPEN2(name) int name(const char *path, int flags) { \
    if (path_on(AT_FDCWD, path)) return do_open(AT_FDCWD, path, flags, 0); \
    REAL(int, #name, (const char *, int)); return real(path, flags); }
OPEN2(__open_2)
OPEN2(__open64_2)
#define OPENAT2(name) int name(int dirfd, const char *path, int flags) { \
    if (path_on(dirfd, path)) return do_open(dirfd, path, flags, 0); \
    REAL(int, #name, (int, const char *, int)); return real(dirfd, path, flags); }
OPENAT2(__openat_2)
OPENAT2(__openat64_2)
#define CREATFN(name) int name(const char *path, mode_t mode) { \
    if (path_on(AT_FDCWD, path)) return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); \
    REAL(int, #name, (const char *, mode_t)); return real(path, mode); }
CREATFN(creat)
CREATFN(creat64)

/* ---- read, write ---- */
ssize_t read(int fd, void *buf, size_t n) {
    if (fd_on(fd)) return call(READ, fd, NULL, NULL, (long)n, -1, buf);
    REAL(ssize_t, "read", (int, void *, size_t)); return real(fd, buf, n);
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t l) {
    if (fd_on(fd)) return call(READ, fd, NULL, NULL, (long)n, -1, buf);
    REAL(ssize_t, "__read_chk", (int, void *, size_t, size_t)); return real(fd, buf, n, l);
}
#define PREADFN(name) ssize_t name(int fd, void *buf, size_t n, off_t off) { \
    if (fd_on(fd)) return call(READ, fd, NULL, NULL, (long)n, off, buf); \
    REAL(ssize_t, #name, (int, void *, size_t, off_t)); return real(fd, buf, n, off); }
PREADFN(pread)
PREADFN(pread64)
#define PREADCHK(name) ssize_t name(int fd, void *buf, size_t n, off_t off, size_t l) { \
    if (fd_on(fd)) return call(READ, fd, NULL, NULL, (long)n, off, buf); \
    REAL(ssize_t, #name, (int, void *, size_t, off_t, size_t)); return real(fd, buf, n, off, l); }
PREADCHK(__pread_chk)
PREADCHK(__pread64_chk)
ssize_t write(int fd, const void *buf, size_t n) {
    if (fd_on(fd)) return call(WRITE, fd, NULL, NULL, (long)n, -1, (void *)buf);
    REAL(ssize_t, "write", (int, const void *, size_t)); return real(fd, buf, n);
}
#define PWRITEFN(name) ssize_t name(int fd, const void *buf, size_t n, off_t off) { \
    if (fd_on(fd)) return call(WRITE, fd, NULL, NULL, (long)n, off, (void *)buf); \
    REAL(ssize_t, #name, (int, const void *, size_t, off_t)); return real(fd, buf, n, off); }
PWRITEFN(pwrite)
PWRITEFN(pwrite64)
/* vectored calls: one buffer at a time, a partial count is legal */
#define VECFN(name, OP, POS, ...) ssize_t name(int fd, const struct iovec *v, int cnt, ##__VA_ARGS__) { \
    if (fd_on(fd)) { int i = 0; while (i < cnt && !v[i].iov_len) i++; \
        return i == cnt ? 0 : call(OP, fd, NULL, NULL, (long)v[i].iov_len, POS, v[i].iov_base); }
VECFN(readv, READ, -1) REAL(ssize_t, "readv", (int, const struct iovec *, int)); return real(fd, v, cnt); }
VECFN(writev, WRITE, -1) REAL(ssize_t, "writev", (int, const struct iovec *, int)); return real(fd, v, cnt); }
VECFN(preadv, READ, off, off_t off) REAL(ssize_t, "preadv", (int, const struct iovec *, int, off_t)); return real(fd, v, cnt, off); }
VECFN(preadv64, READ, off, off_t off) REAL(ssize_t, "preadv64", (int, const struct iovec *, int, off_t)); return real(fd, v, cnt, off); }
VECFN(pwritev, WRITE, off, off_t off) REAL(ssize_t, "pwritev", (int, const struct iovec *, int, off_t)); return real(fd, v, cnt, off); }
VECFN(pwritev64, WRITE, off, off_t off) REAL(ssize_t, "pwritev64", (int, const struct iovec *, int, off_t)); return real(fd, v, cnt, off); }

int close(int fd) {
    if (fd_on(fd)) {
        tracked[fd] = 0;
        return (int)call(CLOSE, fd, NULL, NULL, 0, 0, NULL);
    }
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    REAL(int, "close", (int)); return real(fd);
}
#define SYNCFN(name) int name(int fd) { \
    if (fd_on(fd)) return (int)call(FSYNC, fd, NULL, NULL, 0, 0, NULL); \
    REAL(int, #name, (int)); return real(fd); }
SYNCFN(fsync)
SYNCFN(fdatasync)
#define TRUNCFN(name) int name(int fd, off_t n) { \
    if (fd_on(fd)) return (int)call(TRUNC, fd, NULL, NULL, n, 0, NULL); \
    REAL(int, #name, (int, off_t)); return real(fd, n); }
TRUNCFN(ftruncate)
TRUNCFN(ftruncate64)
#define PTRUNCFN(name) int name(const char *p, off_t n) { \
    if (path_on(AT_FDCWD, p)) { int r, e, fd = open(p, O_WRONLY); if (fd < 0) return -1; \
        r = ftruncate(fd, n); e = errno; close(fd); errno = e; return r; } \
    REAL(int, #name, (const char *, off_t)); return real(p, n); }
PTRUNCFN(truncate)
PTRUNCFN(truncate64)

/* ---- names ---- */
int rename(const char *a, const char *b) {
    if (path_on(AT_FDCWD, a) || path_on(AT_FDCWD, b))
        return (int)call(RENAME, AT_FDCWD, a, b, AT_FDCWD, 0, NULL);
    REAL(int, "rename", (const char *, const char *)); return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
    if (path_on(d, a) || path_on(e, b)) return (int)call(RENAME, d, a, b, e, 0, NULL);
    REAL(int, "renameat", (int, const char *, int, const char *)); return real(d, a, e, b);
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    if (path_on(d, a) || path_on(e, b)) {
        if (f) { errno = EINVAL; return -1; }
        return (int)call(RENAME, d, a, b, e, 0, NULL);
    }
    REAL(int, "renameat2", (int, const char *, int, const char *, unsigned)); return real(d, a, e, b, f);
}
int unlink(const char *p) {
    if (path_on(AT_FDCWD, p)) return (int)call(UNLINK, AT_FDCWD, p, NULL, 0, 0, NULL);
    REAL(int, "unlink", (const char *)); return real(p);
}
int unlinkat(int d, const char *p, int f) {
    if (path_on(d, p))
        return (int)call(f & AT_REMOVEDIR ? RMDIR : UNLINK, d, p, NULL, 0, 0, NULL);
    REAL(int, "unlinkat", (int, const char *, int)); return real(d, p, f);
}
int rmdir(const char *p) {
    if (path_on(AT_FDCWD, p)) return (int)call(RMDIR, AT_FDCWD, p, NULL, 0, 0, NULL);
    REAL(int, "rmdir", (const char *)); return real(p);
}
int remove(const char *p) {
    if (path_on(AT_FDCWD, p)) {
        struct stat s;
        return !lstat(p, &s) && S_ISDIR(s.st_mode) ? rmdir(p) : unlink(p);
    }
    REAL(int, "remove", (const char *)); return real(p);
}
int mkdir(const char *p, mode_t m) {
    if (path_on(AT_FDCWD, p)) return (int)call(MKDIR, AT_FDCWD, p, NULL, m, 0, NULL);
    REAL(int, "mkdir", (const char *, mode_t)); return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    if (path_on(d, p)) return (int)call(MKDIR, d, p, NULL, m, 0, NULL);
    REAL(int, "mkdirat", (int, const char *, mode_t)); return real(d, p, m);
}
int link(const char *a, const char *b) {
    if (path_on(AT_FDCWD, a) || path_on(AT_FDCWD, b)) return (int)call(LINK, AT_FDCWD, a, b, AT_FDCWD, 0, NULL);
    REAL(int, "link", (const char *, const char *)); return real(a, b);
}
int linkat(int d, const char *a, int e, const char *b, int f) {
    if (path_on(d, a) || path_on(e, b)) return (int)call(LINK, d, a, b, e, 0, NULL);
    REAL(int, "linkat", (int, const char *, int, const char *, int)); return real(d, a, e, b, f);
}
int symlink(const char *a, const char *b) {
    if (path_on(AT_FDCWD, b)) return (int)call(SYMLINK, AT_FDCWD, a, b, AT_FDCWD, 0, NULL);
    REAL(int, "symlink", (const char *, const char *)); return real(a, b);
}
int symlinkat(const char *a, int d, const char *b) {
    if (path_on(d, b)) return (int)call(SYMLINK, AT_FDCWD, a, b, d, 0, NULL);
    REAL(int, "symlinkat", (const char *, int, const char *)); return real(a, d, b);
}
#define CHMODFN(name, T, dirfd, cond, ARG, ...) 
int chmod(const char *p, mode_t m) {
    if (path_on(AT_FDCWD, p)) return (int)call(CHMOD, AT_FDCWD, p, NULL, m, 0, NULL);
    REAL(int, "chmod", (const char *, mode_t)); return real(p, m);
}
int fchmod(int fd, mode_t m) {
    if (fd_on(fd)) return (int)call(CHMOD, fd, NULL, NULL, m, 0, NULL);
    REAL(int, "fchmod", (int, mode_t)); return real(fd, m);
}
int fchmodat(int d, const char *p, mode_t m, int f) {
    if (path_on(d, p)) return (int)call(CHMOD, d, p, NULL, m, 0, NULL);
    REAL(int, "fchmodat", (int, const char *, mode_t, int)); return real(d, p, m, f);
}

/* ---- descriptors ---- */
int dup(int fd) {
    REAL(int, "dup", (int)); int r = real(fd);
    if (fd_on(fd) && r >= 0) { tracked[r] = 1; call(DUP, fd, NULL, NULL, r, 0, NULL); }
    return r;
}
int dup2(int fd, int to) {
    REAL(int, "dup2", (int, int)); int r = real(fd, to);
    if (fd_on(fd) && r >= 0) { tracked[r] = 1; call(DUP, fd, NULL, NULL, r, 0, NULL); }
    return r;
}
int dup3(int fd, int to, int f) {
    REAL(int, "dup3", (int, int, int)); int r = real(fd, to, f);
    if (fd_on(fd) && r >= 0) { tracked[r] = 1; call(DUP, fd, NULL, NULL, r, 0, NULL); }
    return r;
}
#define FCNTLFN(name) int name(int fd, int cmd, ...) { \
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap); \
    REAL(int, #name, (int, int, ...)); int r = real(fd, cmd, arg); \
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD && fd_on(fd)) { \
        tracked[r] = 1; call(DUP, fd, NULL, NULL, r, 0, NULL); } \
    return r; }
FCNTLFN(fcntl)
FCNTLFN(fcntl64)
/* fast copies are refused, which makes callers fall back to read and write */
#define SENDFN(name) ssize_t name(int o, int i, off_t *off, size_t n) { \
    if (fd_on(o) || fd_on(i)) { errno = ENOTSOCK; return -1; } \
    REAL(ssize_t, #name, (int, int, off_t *, size_t)); return real(o, i, off, n); }
SENDFN(sendfile)
SENDFN(sendfile64)
ssize_t copy_file_range(int i, off_t *a, int o, off_t *b, size_t n, unsigned f) {
    if (fd_on(o) || fd_on(i)) { errno = ENOSYS; return -1; }
    REAL(ssize_t, "copy_file_range", (int, off_t *, int, off_t *, size_t, unsigned)); return real(i, a, o, b, n, f);
}
#define FALLOC(name) int name(int fd, off_t off, off_t n) { \
    if (fd_on(fd)) return ENOSPC == 0 ? 0 : (call(OTHER, fd, NULL, NULL, off, n, NULL) < 0 ? errno : 0); \
    REAL(int, #name, (int, off_t, off_t)); return real(fd, off, n); }
FALLOC(posix_fallocate)
FALLOC(posix_fallocate64)

/* ---- clocks ---- */
#define MAXJUMP 256
static volatile int clock_on;
static int64_t clock_now, clock_wall, clock_tick; /* monotonic time; the wall clock's lead; time per reading */
static long clock_reads, n_jump, jump_at[MAXJUMP];
static int64_t jump_by[MAXJUMP];
static int64_t clock_low, clock_high;
static pthread_t clock_owner; /* readings of other threads (idle workers of solvers) take no time */

/* a negative `by` and a step move the wall clock only, which is all that goes backwards in a real machine */
void shim_clock_step(int64_t by) { clock_wall += by; }
void shim_clock_start(int64_t now, int64_t tick, long n, const int64_t *at, const int64_t *by) {
    clock_now = clock_low = clock_high = now;
    clock_wall = 0;
    clock_tick = tick;
    clock_reads = 0;
    clock_owner = pthread_self();
    n_jump = n < MAXJUMP ? n : MAXJUMP;
    for (long i = 0; i < n_jump; i++) { jump_at[i] = at[i]; jump_by[i] = by[i]; }
    clock_on = 1;
}
void shim_clock_add(int64_t by) {
    if (by < 0) { shim_clock_step(by); return; }
    clock_now += by;
    if (clock_now > clock_high) clock_high = clock_now;
}
void shim_clock_stop(int64_t *out) {
    clock_on = 0;
    out[0] = clock_reads; out[1] = clock_now; out[2] = clock_low; out[3] = clock_high;
}
static int64_t now_ns(void) {
    if (!pthread_equal(pthread_self(), clock_owner)) return clock_now;
    long k = clock_reads++;
    for (long i = 0; i < n_jump; i++) if (jump_at[i] == k) shim_clock_add(jump_by[i]);
    shim_clock_add(clock_tick);
    return clock_now;
}
static int64_t wall_ns(void) { int64_t n = now_ns() + clock_wall; return n < 0 ? 0 : n; }
static int walls(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI; }
int clock_gettime(clockid_t id, struct timespec *t) {
    if (clock_on) { int64_t n = walls(id) ? wall_ns() : now_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
    REAL(int, "clock_gettime", (clockid_t, struct timespec *)); return real(id, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    if (clock_on) { int64_t n = wall_ns(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
    REAL(int, "gettimeofday", (struct timeval *, void *)); return real(t, z);
}
time_t time(time_t *p) {
    if (clock_on) { time_t s = wall_ns() / 1000000000; if (p) *p = s; return s; }
    REAL(time_t, "time", (time_t *)); return real(p);
}
clock_t clock(void) {
    if (clock_on) return (clock_t)(now_ns() / 1000);
    REAL(clock_t, "clock", (void)); return real();
}
int getrusage(__rusage_who_t who, struct rusage *u) {
    REAL(int, "getrusage", (__rusage_who_t, struct rusage *)); int r = real(who, u);
    if (clock_on && !r) { int64_t n = now_ns(); u->ru_utime.tv_sec = n / 1000000000; u->ru_utime.tv_usec = n % 1000000000 / 1000; }
    return r;
}
