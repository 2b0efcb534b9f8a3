/*
 * libsim - the seam between the system under test and the operating system.
 *
 * Loaded with LD_PRELOAD into every simulated process. It owns
 *   - the wall clock (clock_gettime(REALTIME*), time, gettimeofday),
 *   - every file operation on paths below one scratch prefix
 *     (faults: errno, short transfer, torn write + death, death),
 *   - the interleaving of several processes (a token passed through pipes).
 * Everything is off until a simulation switches it on through sim_*().
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- op classes */
enum {
    OP_OPEN = 0,   /* open for reading only */
    OP_CREATE,     /* open with write access / O_CREAT / O_TRUNC */
    OP_READ,
    OP_WRITE,
    OP_TRUNC,
    OP_RENAME,
    OP_UNLINK,
    OP_MKDIR,
    OP_SYNC,
    OP_CLOSE,      /* close of a tracked descriptor opened for writing */
    OP_STAT,
    OP_N
};
/* fault kinds */
enum { F_ERRNO = 1, F_SHORT = 2, F_CRASH = 3, F_TORN = 4, F_CRASH_AFTER = 5 };

#define MAXF 64
#define MAXFD 65536
#define MAXJ 64
#define LOGCAP (1 << 20)

struct fault {
    int used, kind;
    unsigned opmask;
    long nth;      /* fires at the nth matching op (0-based) ... */
    long count;    /* ... and the following count-1 ones; <0: sticky */
    long arg;      /* errno, or per-mille of the request for short/torn */
    long seen, fired;
};

static struct fault faults[MAXF];
static int fs_on = 0;
static char prefix[PATH_MAX];
static size_t prefix_len = 0;
static char nopath[4][256]; /* substrings that exclude a path from faults */
static unsigned char fdflag[MAXFD]; /* 1 tracked, 2 writable */
static char *fdpath[MAXFD];
static long op_count[OP_N];
static long op_total = 0;
static long quota = -1; /* bytes that may still be written */
static long quota_hits = 0;
static int log_on = 0;
static char *logbuf = NULL;
static long loglen = 0;
static int sched_out = -1, sched_in = -1;

/* clock */
static int clk_on = 0;
static int64_t clk_now = 0, clk_tick = 0;
static long clk_reads = 0;
static int64_t jump_at[MAXJ], jump_by[MAXJ];
static int jump_n = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ------------------------------------------------------------------- control */
void sim_fs_reset(void)
{
    memset(faults, 0, sizeof faults);
    memset(op_count, 0, sizeof op_count);
    op_total = 0;
    quota = -1;
    quota_hits = 0;
    loglen = 0;
}
void sim_fs_enable(int on) { fs_on = on; }
void sim_fs_prefix(const char *p)
{
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
}
void sim_fs_exclude(int i, const char *p) { if (i >= 0 && i < 4) { strncpy(nopath[i], p, 255); } }
int sim_fs_fault(int kind, unsigned opmask, long nth, long count, long arg)
{
    for (int i = 0; i < MAXF; i++)
        if (!faults[i].used) {
            faults[i] = (struct fault){1, kind, opmask, nth, count, arg, 0, 0};
            return i;
        }
    return -1;
}
long sim_fs_fired(int i) { return faults[i].fired; }
long sim_fs_count(int op) { return op < 0 ? op_total : op_count[op]; }
void sim_fs_quota(long bytes) { quota = bytes; }
long sim_fs_quota_hits(void) { return quota_hits; }
void sim_fs_log(int on)
{
    log_on = on;
    if (on && !logbuf) logbuf = malloc(LOGCAP);
    loglen = 0;
}
long sim_fs_log_len(void) { return loglen; }
const char *sim_fs_log_buf(void) { return logbuf ? logbuf : ""; }
void sim_sched(int out, int in) { sched_out = out; sched_in = in; }

void sim_clock(int on, int64_t now_ns, int64_t tick_ns)
{
    clk_on = on; clk_now = now_ns; clk_tick = tick_ns; clk_reads = 0; jump_n = 0;
}
void sim_clock_set(int64_t now_ns) { clk_now = now_ns; }
void sim_clock_jump(int64_t at_read, int64_t by_ns)
{
    if (jump_n < MAXJ) { jump_at[jump_n] = at_read; jump_by[jump_n] = by_ns; jump_n++; }
}
int64_t sim_clock_now(void) { return clk_now; }
long sim_clock_reads(void) { return clk_reads; }

static int64_t clk_read(void)
{
    for (int i = 0; i < jump_n; i++)
        if (jump_at[i] == clk_reads) clk_now += jump_by[i];
    clk_reads++;
    int64_t v = clk_now;
    clk_now += clk_tick;
    return v;
}

/* --------------------------------------------------------------------- clock */
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (clk_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t v = clk_read();
        ts->tv_sec = v / 1000000000LL;
        ts->tv_nsec = v % 1000000000LL;
        if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000LL; ts->tv_sec -= 1; }
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t)
{
    time_t v;
    if (clk_on) v = (time_t)(clk_read() / 1000000000LL);
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

/* ----------------------------------------------------------- path redirection */
#define MAXR 8
static char redir_from[MAXR][256], redir_to[MAXR][512];
static size_t redir_len[MAXR];
static int redir_n = 0;
void sim_redirect(const char *from, const char *to)
{
    if (!from) { redir_n = 0; return; }
    if (redir_n >= MAXR) return;
    strncpy(redir_from[redir_n], from, 255);
    strncpy(redir_to[redir_n], to, 511);
    redir_len[redir_n] = strlen(from);
    redir_n++;
}
static const char *redir(const char *p, char *buf)
{
    if (!redir_n || !p || p[0] != '/') return p;
    for (int i = 0; i < redir_n; i++)
        if (!strncmp(p, redir_from[i], redir_len[i]) && (p[redir_len[i]] == 0 || p[redir_len[i]] == '/')) {
            snprintf(buf, PATH_MAX, "%s%s", redir_to[i], p + redir_len[i]);
            return buf;
        }
    return p;
}
#define RD(p) char rbuf_##p[PATH_MAX]; p = redir(p, rbuf_##p)

/* --------------------------------------------------------------- fault engine */
static int under_prefix(int dirfd, const char *path)
{
    if (!fs_on || !prefix_len || !path) return 0;
    char buf[PATH_MAX];
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            if (!getcwd(buf, sizeof buf)) return 0;
        } else {
            char lnk[64];
            snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(lnk, buf, sizeof buf - 1);
            if (n < 0) return 0;
            buf[n] = 0;
        }
        size_t l = strlen(buf);
        snprintf(buf + l, sizeof buf - l, "/%s", path);
        path = buf;
    }
    if (strncmp(path, prefix, prefix_len) != 0) return 0;
    for (int i = 0; i < 4; i++)
        if (nopath[i][0] && strstr(path, nopath[i])) return 0;
    return 1;
}
static int tracked(int fd) { return fs_on && fd >= 0 && fd < MAXFD && (fdflag[fd] & 1); }

static const char *opname[OP_N] = {"open", "create", "read", "write", "trunc", "rename",
                                   "unlink", "mkdir", "sync", "close", "stat"};
static void logop(int op, const char *path, long n, int fault)
{
    if (!log_on || !logbuf || loglen > LOGCAP - 512) return;
    const char *p = path ? path : "";
    if (path && strncmp(path, prefix, prefix_len) == 0) p = path + prefix_len;
    loglen += snprintf(logbuf + loglen, 500, "%s %.300s %ld%s\n", opname[op], p, n,
                       fault == F_ERRNO ? " !error" : fault == F_SHORT ? " !short"
                       : fault == F_CRASH || fault == F_CRASH_AFTER ? " !crash"
                       : fault == F_TORN ? " !torn" : "");
}
static void die(void) { syscall(SYS_exit_group, 77); }

static void yield_point(int op)
{
    if (sched_out < 0) return;
    unsigned char c = (unsigned char)op;
    if (syscall(SYS_write, sched_out, &c, 1) != 1) die();
    long r;
    do { r = syscall(SYS_read, sched_in, &c, 1); } while (r < 0 && errno == EINTR);
    if (r != 1 || c == 'X') die();
}

/* returns the fault to apply to this op (or NULL) */
static struct fault *gate(int op, const char *path, long n)
{
    yield_point(op);
    op_count[op]++;
    op_total++;
    struct fault *hit = NULL;
    for (int i = 0; i < MAXF; i++) {
        struct fault *f = &faults[i];
        if (!f->used || !(f->opmask & (1u << op))) continue;
        long s = f->seen++;
        if (s >= f->nth && (f->count < 0 || s < f->nth + f->count) && !hit) { hit = f; f->fired++; }
    }
    logop(op, path, n, hit ? hit->kind : 0);
    if (hit && hit->kind == F_CRASH) die();
    return hit;
}
static void after(struct fault *f) { if (f && f->kind == F_CRASH_AFTER) die(); }
#define FAIL_IF(f) if ((f) && (f)->kind == F_ERRNO) { errno = (int)(f)->arg; return -1; }

static void mark(int fd, int writable, const char *path)
{
    if (fd >= 0 && fd < MAXFD) {
        fdflag[fd] = (unsigned char)(1 | (writable ? 2 : 0));
        if (log_on) {
            free(fdpath[fd]);
            fdpath[fd] = path ? strdup(path) : NULL;
        }
    }
}
static const char *pathof(int fd) { return log_on && fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

/* ---------------------------------------------------------------------- open */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    RD(path);
    int t = under_prefix(dirfd, path);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    struct fault *f = NULL;
    if (t && !(flags & O_DIRECTORY)) {
        f = gate(wr ? OP_CREATE : OP_OPEN, path, flags);
        FAIL_IF(f);
    } else t = 0;
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) fdflag[fd] = 0;
    if (t) mark(fd, wr, path);
    after(f);
    return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dfd, const char *path, int flags, ...) { GETMODE return do_open(dfd, path, flags, mode); }
int openat64(int dfd, const char *path, int flags, ...) { GETMODE return do_open(dfd, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

static void copyflag(int from, int to)
{
    if (from >= 0 && from < MAXFD && to >= 0 && to < MAXFD) fdflag[to] = fdflag[from];
}
int dup(int fd) { int n = (int)syscall(SYS_dup, fd); copyflag(fd, n); return n; }
int dup2(int fd, int nfd) { int n = fd == nfd ? (int)syscall(SYS_dup3, fd, nfd, 0) : (int)syscall(SYS_dup3, fd, nfd, 0); if (fd == nfd) n = nfd; copyflag(fd, n); return n; }
int dup3(int fd, int nfd, int fl) { int n = (int)syscall(SYS_dup3, fd, nfd, fl); copyflag(fd, n); return n; }

int close(int fd)
{
    struct fault *f = NULL;
    if (tracked(fd) && (fdflag[fd] & 2)) {
        f = gate(OP_CLOSE, pathof(fd), fd);
        /* the descriptor is released even if close reports an error (Linux) */
    }
    if (fd >= 0 && fd < MAXFD) fdflag[fd] = 0;
    int r = (int)syscall(SYS_close, fd);
    after(f);
    FAIL_IF(f);
    return r;
}

/* --------------------------------------------------------------- read / write */
static size_t cut(struct fault *f, size_t n)
{
    if (n < 2) return n;
    size_t k = (size_t)((double)n * (double)f->arg / 1000.0);
    if (k < 1) k = 1;
    if (k >= n) k = n - 1;
    return k;
}
static ssize_t do_write(int fd, const void *b, size_t n, int at, off_t off)
{
    struct fault *f = NULL;
    size_t want = n;
    if (tracked(fd)) {
        f = gate(OP_WRITE, pathof(fd), (long)n);
        FAIL_IF(f);
        if (f && (f->kind == F_SHORT || f->kind == F_TORN)) want = cut(f, n);
        if (quota >= 0) {
            if (quota == 0 && n > 0) { quota_hits++; errno = ENOSPC; return -1; }
            if ((long)want > quota) { want = (size_t)quota; quota_hits++; }
        }
    }
    ssize_t r = at ? syscall(SYS_pwrite64, fd, b, want, off) : syscall(SYS_write, fd, b, want);
    if (f && f->kind == F_TORN) die();
    if (r > 0 && quota >= 0 && tracked(fd)) quota -= r;
    after(f);
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (!tracked(fd)) return syscall(SYS_write, fd, b, n);
    return do_write(fd, b, n, 0, 0);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
{
    if (!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, off);
    return do_write(fd, b, n, 1, off);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int c)
{
    if (!tracked(fd)) return syscall(SYS_writev, fd, iov, c);
    ssize_t sum = 0;
    for (int i = 0; i < c; i++) {
        if (!iov[i].iov_len) continue;
        ssize_t r = do_write(fd, iov[i].iov_base, iov[i].iov_len, 0, 0);
        if (r < 0) return sum ? sum : r;
        sum += r;
        if ((size_t)r < iov[i].iov_len) break;
    }
    return sum;
}
static ssize_t do_read(int fd, void *b, size_t n, int at, off_t off)
{
    struct fault *f = gate(OP_READ, pathof(fd), (long)n);
    FAIL_IF(f);
    if (f && f->kind == F_SHORT) n = cut(f, n);
    ssize_t r = at ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    after(f);
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    if (!tracked(fd)) return syscall(SYS_read, fd, b, n);
    return do_read(fd, b, n, 0, 0);
}
ssize_t pread(int fd, void *b, size_t n, off_t off)
{
    if (!tracked(fd)) return syscall(SYS_pread64, fd, b, n, off);
    return do_read(fd, b, n, 1, off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }

static ssize_t fallback_copy(int out, int in, size_t n)
{
    char buf[65536];
    if (n > sizeof buf) n = sizeof buf;
    ssize_t r = read(in, buf, n);
    if (r <= 0) return r;
    ssize_t w = write(out, buf, (size_t)r);
    if (w < 0) return w;
    if (w < r) lseek(in, w - r, SEEK_CUR);
    return w;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    if (!tracked(out) && !tracked(in)) return syscall(SYS_sendfile, out, in, off, n);
    /* with an explicit offset the position of `in` stays as it was, on failure in any case */
    off_t was = lseek(in, 0, SEEK_CUR);
    if (off) { if (lseek(in, *off, SEEK_SET) < 0) return -1; }
    ssize_t r = fallback_copy(out, in, n);
    if (was >= 0 && (off || r < 0)) { int e = errno; lseek(in, was, SEEK_SET); errno = e; }
    if (off && r > 0) *off += r;
    return r;
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oin, int out, off64_t *oout, size_t n, unsigned fl)
{
    if ((!tracked(out) && !tracked(in)) || oin || oout)
        return syscall(SYS_copy_file_range, in, oin, out, oout, n, fl);
    return fallback_copy(out, in, n);
}

int ftruncate(int fd, off_t len)
{
    if (!tracked(fd)) return (int)syscall(SYS_ftruncate, fd, len);
    struct fault *f = gate(OP_TRUNC, pathof(fd), (long)len);
    FAIL_IF(f);
    int r = (int)syscall(SYS_ftruncate, fd, len);
    after(f);
    return r;
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
int truncate(const char *p, off_t len)
{
    RD(p);
    if (!under_prefix(AT_FDCWD, p)) return (int)syscall(SYS_truncate, p, len);
    struct fault *f = gate(OP_TRUNC, p, (long)len);
    FAIL_IF(f);
    int r = (int)syscall(SYS_truncate, p, len);
    after(f);
    return r;
}
int fsync(int fd)
{
    if (!tracked(fd)) return (int)syscall(SYS_fsync, fd);
    struct fault *f = gate(OP_SYNC, pathof(fd), fd);
    FAIL_IF(f);
    after(f);
    return 0; /* scratch is memory: nothing to flush */
}
int fdatasync(int fd) { return fsync(fd); }

/* ------------------------------------------------------------------ directory */
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl)
{
    RD(o); RD(n);
    if (!under_prefix(nd, n) && !under_prefix(od, o)) return (int)syscall(SYS_renameat2, od, o, nd, n, fl);
    struct fault *f = gate(OP_RENAME, n, 0);
    FAIL_IF(f);
    int r = (int)syscall(SYS_renameat2, od, o, nd, n, fl);
    after(f);
    return r;
}
int renameat(int od, const char *o, int nd, const char *n) { return renameat2(od, o, nd, n, 0); }
int rename(const char *o, const char *n) { return renameat2(AT_FDCWD, o, AT_FDCWD, n, 0); }
int linkat(int od, const char *o, int nd, const char *n, int fl)
{
    RD(o); RD(n);
    if (!under_prefix(nd, n)) return (int)syscall(SYS_linkat, od, o, nd, n, fl);
    struct fault *f = gate(OP_RENAME, n, 1);
    FAIL_IF(f);
    int r = (int)syscall(SYS_linkat, od, o, nd, n, fl);
    after(f);
    return r;
}
int link(const char *o, const char *n) { return linkat(AT_FDCWD, o, AT_FDCWD, n, 0); }
int unlinkat(int d, const char *p, int fl)
{
    RD(p);
    if (!under_prefix(d, p)) return (int)syscall(SYS_unlinkat, d, p, fl);
    struct fault *f = gate(OP_UNLINK, p, 0);
    FAIL_IF(f);
    int r = (int)syscall(SYS_unlinkat, d, p, fl);
    after(f);
    return r;
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int mkdirat(int d, const char *p, mode_t m)
{
    RD(p);
    if (!under_prefix(d, p)) return (int)syscall(SYS_mkdirat, d, p, m);
    struct fault *f = gate(OP_MKDIR, p, 0);
    FAIL_IF(f);
    int r = (int)syscall(SYS_mkdirat, d, p, m);
    after(f);
    return r;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

/* stat family: only interleaving points (no faults: a failing stat on an
   existing, reachable file is not something local file systems do) */
int stat(const char *restrict p, struct stat *restrict s)
{
    RD(p);
    if (sched_out >= 0 && under_prefix(AT_FDCWD, p)) gate(OP_STAT, p, 0);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
}
int lstat(const char *restrict p, struct stat *restrict s)
{
    RD(p);
    if (sched_out >= 0 && under_prefix(AT_FDCWD, p)) gate(OP_STAT, p, 0);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
}
int fstatat(int d, const char *restrict p, struct stat *restrict s, int fl)
{
    RD(p);
    if (sched_out >= 0 && p[0] && under_prefix(d, p)) gate(OP_STAT, p, 0);
    return (int)syscall(SYS_newfstatat, d, p, s, fl);
}
int stat64(const char *restrict p, struct stat64 *restrict s) { return stat(p, (struct stat *)s); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { return lstat(p, (struct stat *)s); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }

/* redirected only */
int faccessat(int d, const char *p, int m, int fl) { RD(p); (void)fl; return (int)syscall(SYS_faccessat, d, p, m); }
int access(const char *p, int m) { RD(p); return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { RD(p); return syscall(SYS_readlinkat, d, p, b, n); }
ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) { RD(p); return (int)syscall(SYS_utimensat, d, p, t, fl); }
int fchmodat(int d, const char *p, mode_t m, int fl) { RD(p); (void)fl; return (int)syscall(SYS_fchmodat, d, p, m); }
int chmod(const char *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
DIR *opendir(const char *p)
{
    RD(p);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC | O_NONBLOCK);
    return fd < 0 ? NULL : fdopendir(fd);
}
int rmdir(const char *p) { RD(p); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
