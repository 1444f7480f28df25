/*
 * faultsim.c -- the seam between the code under test and the operating system.
 *
 * LD_PRELOADed into the simulation process.  Every system call that touches a path below a
 * configurable prefix (the simulated disk), every clock read and every large allocation made by
 * numpy passes through here, is counted, logged, and may be altered by a fault plan installed from
 * Python through ctypes (fs_*).  Nothing is altered until fs_begin() is called.
 *
 * Determinism: the shim never draws random numbers and never reads a real clock while the simulated
 * clock is on; every decision is a function of the plan and of the operation counter.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
#define MAXRULES 32
#define LOGCAP (1 << 20)
#define MAXPATHS 256

enum {
    K_OPEN_R = 0, K_OPEN_W, K_READ, K_WRITE, K_CLOSE_R, K_CLOSE_W, K_RENAME, K_UNLINK,
    K_MKDIR, K_TRUNC, K_SYNC, K_STAT, K_SEEK, K_ALLOC, K_NKINDS
};
static const char *KNAMES[K_NKINDS] = {"openr", "openw", "read", "write", "closer", "closew", "rename",
                                       "unlink", "mkdir", "trunc", "sync", "stat", "seek", "alloc"};

enum { A_ERRNO = 0, A_CRASH, A_SHORT, A_CRASH_PARTIAL, A_EINTR, A_STICKY_ERRNO };

typedef struct {
    unsigned kinds;    /* bit mask of K_*                                        */
    long nth;          /* fires on the nth matching op (0-based); -1: every one  */
    int action, param; /* errno, or byte count                                   */
    long seen;
    long fired;
    char sub[128];     /* only paths containing this substring ("" = any)        */
} Rule;

static int g_on = 0;
static char g_prefix[512];
static size_t g_prefix_len = 0;
static Rule g_rules[MAXRULES];
static int g_nrules = 0;
static long g_ops = 0;            /* global operation number (simulated disk ops only) */
static long g_kind_ops[K_NKINDS];
static long g_max_ops = -1;       /* liveness budget: exceeding it kills with code 78  */
static long g_budget = -1;        /* free bytes left on the simulated disk, -1 = infinite */
static long g_budget_hits = 0;
static long g_read_cap = 0, g_write_cap = 0;
static long g_short_reads = 0, g_short_writes = 0;
static int g_gate_req = -1, g_gate_ack = -1; /* multi-process scheduler pipes */
static char g_fdmode[MAXFD];      /* 0 untracked, 'r', 'w' */
static char *g_fdpath[MAXFD];
static char *g_log = NULL;
static size_t g_loglen = 0;
static int g_log_on = 1;
static uint64_t g_oplog_hash = 1469598103934665603ULL;

static int g_clock_on = 0;
static int64_t g_clock_ns = 0, g_clock_step = 0;
static long g_clock_reads = 0;

static int g_alloc_on = 0;
static uintptr_t g_alloc_lo = 0, g_alloc_hi = 0;
static long g_alloc_min = 1024;
static long g_alloc_count = 0, g_alloc_fail_at = -1, g_alloc_fail_len = 1, g_alloc_failed = 0;

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

#define REAL(ret, name, args) static ret(*real_##name) args = NULL
#define GET(name) do { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); } while (0)

REAL(int, open, (const char *, int, ...));
REAL(int, open64, (const char *, int, ...));
REAL(int, openat, (int, const char *, int, ...));
REAL(int, openat64, (int, const char *, int, ...));
REAL(int, creat, (const char *, mode_t));
REAL(FILE *, fopen, (const char *, const char *));
REAL(FILE *, fopen64, (const char *, const char *));
REAL(int, fclose, (FILE *));
REAL(int, close, (int));
REAL(ssize_t, read, (int, void *, size_t));
REAL(ssize_t, pread, (int, void *, size_t, off_t));
REAL(ssize_t, pread64, (int, void *, size_t, off64_t));
REAL(ssize_t, readv, (int, const struct iovec *, int));
REAL(ssize_t, write, (int, const void *, size_t));
REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
REAL(ssize_t, writev, (int, const struct iovec *, int));
REAL(int, rename, (const char *, const char *));
REAL(int, renameat, (int, const char *, int, const char *));
REAL(int, renameat2, (int, const char *, int, const char *, unsigned));
REAL(int, link, (const char *, const char *));
REAL(int, symlink, (const char *, const char *));
REAL(int, unlink, (const char *));
REAL(int, unlinkat, (int, const char *, int));
REAL(int, rmdir, (const char *));
REAL(int, mkdir, (const char *, mode_t));
REAL(int, truncate, (const char *, off_t));
REAL(int, ftruncate, (int, off_t));
REAL(int, ftruncate64, (int, off64_t));
REAL(int, fsync, (int));
REAL(int, fdatasync, (int));
REAL(int, dup, (int));
REAL(int, dup2, (int, int));
REAL(int, clock_gettime, (clockid_t, struct timespec *));
REAL(int, gettimeofday, (struct timeval *, void *));
REAL(time_t, time, (time_t *));
REAL(ssize_t, sendfile, (int, int, off_t *, size_t));
REAL(ssize_t, sendfile64, (int, int, off64_t *, size_t));
REAL(ssize_t, copy_file_range, (int, off64_t *, int, off64_t *, size_t, unsigned));

static void hash_bytes(const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) { g_oplog_hash ^= (unsigned char)s[i]; g_oplog_hash *= 1099511628211ULL; }
}

static const char *relname(const char *path) {
    if (path && g_prefix_len && strncmp(path, g_prefix, g_prefix_len) == 0) return path + g_prefix_len;
    return path ? path : "?";
}

static void logf_(const char *fmt, ...) {
    char b[512];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    hash_bytes(b, n);
    if (!g_log_on) return;
    if (!g_log) g_log = __libc_malloc(LOGCAP);
    if (g_log && g_loglen + n + 1 < LOGCAP) { memcpy(g_log + g_loglen, b, n); g_loglen += n; g_log[g_loglen] = 0; }
}

/* Is this path on the simulated disk?  Relative paths are resolved against the cwd. */
static int on_disk(const char *path, char *full) {
    if (!g_on || !path || !g_prefix_len) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= 1000) return 0;
        strcpy(full, path);
    } else {
        if (syscall(SYS_getcwd, full, 1000) < 0) return 0;
        size_t l = strlen(full);
        if (l + strlen(path) + 2 >= 1900) return 0;
        full[l] = '/'; strcpy(full + l + 1, path);
    }
    return strncmp(full, g_prefix, g_prefix_len) == 0;
}

static void gate(const char *what, const char *path) {
    if (g_gate_req < 0) return;
    char b[300]; int n = snprintf(b, sizeof b, "%s %s\n", what, relname(path));
    if (n >= (int)sizeof b) { n = sizeof b - 1; b[n - 1] = '\n'; }
    ssize_t r = syscall(SYS_write, g_gate_req, b, n); (void)r;
    char c;
    do { r = syscall(SYS_read, g_gate_ack, &c, 1); } while (r < 0 && errno == EINTR);
    if (r <= 0) _exit(79);
    if (c == 'K') _exit(137);
}

/* Consult the plan.  Returns the rule that fires, or NULL. */
static Rule *decide(int kind, const char *path) {
    gate(KNAMES[kind], path);
    g_ops++; g_kind_ops[kind]++;
    if (g_max_ops >= 0 && g_ops > g_max_ops) { _exit(78); }
    for (int i = 0; i < g_nrules; i++) {
        Rule *r = &g_rules[i];
        if (!(r->kinds & (1u << kind))) continue;
        if (r->sub[0] && !(path && strstr(relname(path), r->sub))) continue;
        long s = r->seen++;
        int hit = (r->nth < 0) || (s == r->nth) || (r->action == A_STICKY_ERRNO && s >= r->nth);
        if (hit) {
            r->fired++;
            logf_("%s %s !fault action=%d param=%d\n", KNAMES[kind], relname(path), r->action, r->param);
            if (r->action == A_CRASH) _exit(137);
            return r;
        }
    }
    return NULL;
}

static void track(int fd, char mode, const char *full) {
    if (fd < 0 || fd >= MAXFD) return;
    g_fdmode[fd] = mode;
    if (g_fdpath[fd]) __libc_free(g_fdpath[fd]);
    g_fdpath[fd] = NULL;
    if (mode) { size_t l = strlen(full) + 1; g_fdpath[fd] = __libc_malloc(l); if (g_fdpath[fd]) memcpy(g_fdpath[fd], full, l); }
}
static char fmode(int fd) { return (fd >= 0 && fd < MAXFD && g_on) ? g_fdmode[fd] : 0; }
static const char *fpath(int fd) { return g_fdpath[fd] ? g_fdpath[fd] : "?"; }

/* ------------------------------------------------------------------ open family */
static int do_open(int dirfd, const char *path, int flags, mode_t mode, int (*fallback)(int, const char *, int, mode_t)) {
    char full[2000];
    if ((dirfd != AT_FDCWD && path && path[0] != '/') || !on_disk(path, full)) return fallback(dirfd, path, flags, mode);
    int w = (flags & O_ACCMODE) != O_RDONLY;
    if (flags & O_DIRECTORY) return fallback(dirfd, path, flags, mode);
    Rule *r = decide(w ? K_OPEN_W : K_OPEN_R, full);
    if (r) { if (r->action == A_EINTR) { errno = EINTR; return -1; } if (r->action == A_ERRNO || r->action == A_STICKY_ERRNO) { errno = r->param; return -1; } }
    int fd = fallback(dirfd, path, flags, mode);
    logf_("%s %s = %d\n", w ? "openw" : "openr", relname(full), fd >= 0 ? 0 : -errno);
    if (fd >= 0) track(fd, w ? 'w' : 'r', full);
    return fd;
}
static int fb_openat(int d, const char *p, int f, mode_t m) { GET(openat); return real_openat(d, p, f, m); }
static int fb_openat64(int d, const char *p, int f, mode_t m) { GET(openat64); return real_openat64(d, p, f, m); }
#define MODEARG(flags) mode_t m = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODEARG(flags) return do_open(AT_FDCWD, p, flags, m, fb_openat); }
int open64(const char *p, int flags, ...) { MODEARG(flags) return do_open(AT_FDCWD, p, flags, m, fb_openat64); }
int openat(int d, const char *p, int flags, ...) { MODEARG(flags) return do_open(d, p, flags, m, fb_openat); }
int openat64(int d, const char *p, int flags, ...) { MODEARG(flags) return do_open(d, p, flags, m, fb_openat64); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, fb_openat); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0, fb_openat); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0, fb_openat64); }

/* ------------------------------------------------------------------ fd I/O */
static ssize_t sim_read(int fd, void *buf, size_t n, off64_t off, int has_off) {
    const char *path = fpath(fd);
    Rule *r = decide(K_READ, path);
    if (r) {
        if (r->action == A_EINTR) { errno = EINTR; return -1; }
        if (r->action == A_ERRNO || r->action == A_STICKY_ERRNO) { errno = r->param; return -1; }
        if (r->action == A_SHORT && n > (size_t)r->param && r->param > 0) n = r->param;
    }
    if (g_read_cap > 0 && n > (size_t)g_read_cap) { n = g_read_cap; g_short_reads++; }
    ssize_t k = has_off ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
    logf_("read %s %zu = %zd\n", relname(path), n, k);
    return k;
}
static ssize_t sim_write(int fd, const void *buf, size_t n, off64_t off, int has_off) {
    const char *path = fpath(fd);
    Rule *r = decide(K_WRITE, path);
    if (r) {
        if (r->action == A_EINTR) { errno = EINTR; return -1; }
        if (r->action == A_ERRNO || r->action == A_STICKY_ERRNO) { errno = r->param; return -1; }
        if (r->action == A_CRASH_PARTIAL) {
            size_t k = n * (size_t)r->param / 100;
            if (k) { ssize_t q = has_off ? syscall(SYS_pwrite64, fd, buf, k, off) : syscall(SYS_write, fd, buf, k); (void)q; }
            _exit(137);
        }
        if (r->action == A_SHORT && n > (size_t)r->param && r->param > 0) n = r->param;
    }
    if (g_write_cap > 0 && n > (size_t)g_write_cap) { n = g_write_cap; g_short_writes++; }
    if (g_budget >= 0 && n > 0) {
        if (g_budget == 0) { g_budget_hits++; logf_("write %s !enospc\n", relname(path)); errno = ENOSPC; return -1; }
        if (n > (size_t)g_budget) { n = g_budget; g_budget_hits++; }
        g_budget -= n;
    }
    ssize_t k = has_off ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
    logf_("write %s %zu = %zd\n", relname(path), n, k);
    return k;
}
ssize_t read(int fd, void *b, size_t n) { if (!fmode(fd)) { GET(read); return real_read(fd, b, n); } return sim_read(fd, b, n, 0, 0); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (!fmode(fd)) { GET(pread); return real_pread(fd, b, n, o); } return sim_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { if (!fmode(fd)) { GET(pread64); return real_pread64(fd, b, n, o); } return sim_read(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!fmode(fd)) { GET(readv); return real_readv(fd, v, c); }
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t k = sim_read(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (k < 0) return tot ? tot : k; tot += k; if ((size_t)k < v[i].iov_len) break; }
    return tot;
}
ssize_t write(int fd, const void *b, size_t n) { if (!fmode(fd)) { GET(write); return real_write(fd, b, n); } return sim_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!fmode(fd)) { GET(pwrite); return real_pwrite(fd, b, n, o); } return sim_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { if (!fmode(fd)) { GET(pwrite64); return real_pwrite64(fd, b, n, o); } return sim_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!fmode(fd)) { GET(writev); return real_writev(fd, v, c); }
    ssize_t tot = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t k = sim_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (k < 0) return tot ? tot : k; tot += k; if ((size_t)k < v[i].iov_len) break; }
    return tot;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (fmode(o) || fmode(i)) { errno = EINVAL; return -1; } GET(sendfile); return real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { if (fmode(o) || fmode(i)) { errno = EINVAL; return -1; } GET(sendfile64); return real_sendfile64(o, i, off, n); }
ssize_t copy_file_range(int a, off64_t *oa, int b, off64_t *ob, size_t n, unsigned f) { if (fmode(a) || fmode(b)) { errno = EXDEV; return -1; } GET(copy_file_range); return real_copy_file_range(a, oa, b, ob, n, f); }

static int close_common(int fd, const char *path, char mode) {
    Rule *r = decide(mode == 'w' ? K_CLOSE_W : K_CLOSE_R, path);
    int e = 0;
    if (r && (r->action == A_ERRNO || r->action == A_STICKY_ERRNO)) e = r->param;
    logf_("close%c %s = %d\n", mode, relname(path), -e);
    track(fd, 0, NULL);
    return e;
}
int close(int fd) {
    GET(close);
    char m = fmode(fd);
    if (!m) { if (fd >= 0 && fd < MAXFD) g_fdmode[fd] = 0; return real_close(fd); }
    int e = close_common(fd, fpath(fd), m);
    int rc = real_close(fd);
    if (e) { errno = e; return -1; }
    return rc;
}
int dup(int fd) { GET(dup); int n = real_dup(fd); if (n >= 0 && fmode(fd)) track(n, fmode(fd), fpath(fd)); return n; }
int dup2(int a, int b) { GET(dup2); int n = real_dup2(a, b); if (n >= 0 && n < MAXFD) { if (fmode(a)) track(n, fmode(a), fpath(a)); else g_fdmode[n] = 0; } return n; }
int fsync(int fd) { GET(fsync); if (fmode(fd)) { Rule *r = decide(K_SYNC, fpath(fd)); if (r && r->action == A_ERRNO) { errno = r->param; return -1; } return 0; } return real_fsync(fd); }
int fdatasync(int fd) { GET(fdatasync); if (fmode(fd)) { Rule *r = decide(K_SYNC, fpath(fd)); if (r && r->action == A_ERRNO) { errno = r->param; return -1; } return 0; } return real_fdatasync(fd); }
int ftruncate(int fd, off_t l) { GET(ftruncate); if (fmode(fd)) { Rule *r = decide(K_TRUNC, fpath(fd)); if (r && r->action == A_ERRNO) { errno = r->param; return -1; } logf_("ftruncate %s %ld\n", relname(fpath(fd)), (long)l); } return real_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { GET(ftruncate64); if (fmode(fd)) { Rule *r = decide(K_TRUNC, fpath(fd)); if (r && r->action == A_ERRNO) { errno = r->param; return -1; } logf_("ftruncate %s %ld\n", relname(fpath(fd)), (long)l); } return real_ftruncate64(fd, l); }

/* ------------------------------------------------------------------ stdio streams
 * libstdc++ opens with fopen() but moves bytes with read()/write() on the descriptor, so tracking the
 * descriptor is enough.  Any other caller would do its I/O inside glibc, where it cannot be seen: it
 * gets a cookie stream whose callbacks come back through the simulated disk. */
typedef struct { int fd; } Cookie;
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((Cookie *)c)->fd, b, n, 0, 0); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;                      /* like stdio itself: short writes are continued, errors are not */
    while (done < n) {
        ssize_t k = sim_write(((Cookie *)c)->fd, b + done, n - done, 0, 0);
        if (k <= 0) break;
        done += k;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { off64_t r = lseek64(((Cookie *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { int fd = ((Cookie *)c)->fd; __libc_free(c); return close(fd); }

static int from_libstdcxx(void *ra) {
    Dl_info i;
    return dladdr(ra, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++");
}
static FILE *do_fopen(const char *p, const char *m, void *ra, FILE *(*fb)(const char *, const char *)) {
    char full[2000];
    if (!on_disk(p, full)) return fb(p, m);
    int w = m[0] == 'w' || m[0] == 'a' || strchr(m, '+') != NULL;
    if (from_libstdcxx(ra)) {
        Rule *r = decide(w ? K_OPEN_W : K_OPEN_R, full);
        if (r && (r->action == A_ERRNO || r->action == A_STICKY_ERRNO)) { errno = r->param; return NULL; }
        if (r && r->action == A_EINTR) { errno = EINTR; return NULL; }
        FILE *f = fb(p, m);
        logf_("%s %s = %d (stream)\n", w ? "openw" : "openr", relname(full), f ? 0 : -errno);
        if (f) track(fileno(f), w ? 'w' : 'r', full);
        return f;
    }
    int flags = m[0] == 'r' ? (strchr(m, '+') ? O_RDWR : O_RDONLY)
              : m[0] == 'w' ? ((strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC)
                            : ((strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
    int fd = do_open(AT_FDCWD, p, flags | O_CLOEXEC, 0666, fb_openat);
    if (fd < 0) return NULL;
    Cookie *c = __libc_malloc(sizeof *c); c->fd = fd;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    return fopencookie(c, m, io);
}
FILE *fopen(const char *p, const char *m) { GET(fopen); return do_fopen(p, m, __builtin_return_address(0), real_fopen); }
FILE *fopen64(const char *p, const char *m) { GET(fopen64); return do_fopen(p, m, __builtin_return_address(0), real_fopen64); }
int fclose(FILE *f) {
    GET(fclose);
    int fd = fileno(f);
    char m = fd >= 0 ? fmode(fd) : 0;
    if (!m) return real_fclose(f);
    int e = close_common(fd, fpath(fd), m);
    int rc = real_fclose(f);
    if (e) { errno = e; return EOF; }
    return rc;
}

/* ------------------------------------------------------------------ names */
#define PATHOP(kind, path, text) \
    do { char full[2000]; if (on_disk(path, full)) { Rule *r = decide(kind, full); \
        if (r && (r->action == A_ERRNO || r->action == A_STICKY_ERRNO)) { errno = r->param; return -1; } \
        logf_("%s %s\n", text, relname(full)); } } while (0)
int rename(const char *a, const char *b) { GET(rename); PATHOP(K_RENAME, b, "rename"); return real_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b) { GET(renameat); PATHOP(K_RENAME, b, "rename"); return real_renameat(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { GET(renameat2); PATHOP(K_RENAME, b, "rename"); return real_renameat2(d, a, e, b, f); }
int link(const char *a, const char *b) { GET(link); PATHOP(K_RENAME, b, "link"); return real_link(a, b); }
int symlink(const char *a, const char *b) { GET(symlink); PATHOP(K_RENAME, b, "symlink"); return real_symlink(a, b); }
int unlink(const char *a) { GET(unlink); PATHOP(K_UNLINK, a, "unlink"); return real_unlink(a); }
int unlinkat(int d, const char *a, int f) { GET(unlinkat); PATHOP(K_UNLINK, a, "unlink"); return real_unlinkat(d, a, f); }
int rmdir(const char *a) { GET(rmdir); PATHOP(K_UNLINK, a, "rmdir"); return real_rmdir(a); }
int mkdir(const char *a, mode_t m) { GET(mkdir); PATHOP(K_MKDIR, a, "mkdir"); return real_mkdir(a, m); }
int truncate(const char *a, off_t l) { GET(truncate); PATHOP(K_TRUNC, a, "truncate"); return real_truncate(a, l); }

/* ------------------------------------------------------------------ clock */
static int64_t tick(void) { g_clock_reads++; int64_t v = g_clock_ns; g_clock_ns += g_clock_step; return v; }
int clock_gettime(clockid_t id, struct timespec *t) {
    GET(clock_gettime);
    if (g_clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || (g_clock_on == 1 && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW)))) {
        int64_t v = tick(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
    }
    return real_clock_gettime ? real_clock_gettime(id, t) : (int)syscall(SYS_clock_gettime, id, t);
}
int gettimeofday(struct timeval *t, void *z) {
    GET(gettimeofday);
    if (g_clock_on) { int64_t v = tick(); t->tv_sec = v / 1000000000; t->tv_usec = (v % 1000000000) / 1000; return 0; }
    return real_gettimeofday(t, z);
}
time_t time(time_t *o) {
    GET(time);
    time_t r = g_clock_on ? (time_t)(tick() / 1000000000) : real_time(NULL);
    if (o) *o = r;
    return r;
}

/* ------------------------------------------------------------------ allocation failures (numpy buffers only) */
static int alloc_fails(size_t n, void *ra) {
    if ((long)n < g_alloc_min) return 0;
    uintptr_t a = (uintptr_t)ra;
    if (a < g_alloc_lo || a >= g_alloc_hi) return 0;
    long i = g_alloc_count++;
    if (g_alloc_fail_at >= 0 && i >= g_alloc_fail_at && i < g_alloc_fail_at + g_alloc_fail_len) { g_alloc_failed++; return 1; }
    return 0;
}
void *malloc(size_t n) { if (g_alloc_on && alloc_fails(n, __builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (g_alloc_on && alloc_fails(a * b, __builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (g_alloc_on && alloc_fails(n, __builtin_return_address(0))) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }

/* ------------------------------------------------------------------ control interface (ctypes) */
void fs_begin(const char *prefix) {
    strncpy(g_prefix, prefix, sizeof g_prefix - 1); g_prefix_len = strlen(g_prefix);
    memset(g_fdmode, 0, sizeof g_fdmode);
    g_ops = 0; memset(g_kind_ops, 0, sizeof g_kind_ops);
    g_nrules = 0; g_max_ops = -1; g_budget = -1; g_budget_hits = 0;
    g_read_cap = g_write_cap = 0; g_short_reads = g_short_writes = 0;
    g_loglen = 0; if (g_log) g_log[0] = 0; g_oplog_hash = 1469598103934665603ULL;
    g_clock_on = 0; g_clock_reads = 0;
    g_on = 1;
}
void fs_end(void) { g_on = 0; g_clock_on = 0; g_alloc_on = 0; }
void fs_pause(void) { g_on = 0; }
void fs_resume(void) { g_on = 1; }
int fs_rule(unsigned kinds, long nth, int action, int param, const char *sub) {
    if (g_nrules >= MAXRULES) return -1;
    Rule *r = &g_rules[g_nrules]; memset(r, 0, sizeof *r);
    r->kinds = kinds; r->nth = nth; r->action = action; r->param = param;
    if (sub) strncpy(r->sub, sub, sizeof r->sub - 1);
    return g_nrules++;
}
void fs_clear_rules(void) { g_nrules = 0; g_budget = -1; g_read_cap = g_write_cap = 0; }
long fs_rule_fired(int i) { return i < g_nrules ? g_rules[i].fired : 0; }
void fs_budget(long b) { g_budget = b; }
long fs_budget_hits(void) { return g_budget_hits; }
void fs_caps(long r, long w) { g_read_cap = r; g_write_cap = w; }
long fs_short_reads(void) { return g_short_reads; }
long fs_short_writes(void) { return g_short_writes; }
void fs_max_ops(long n) { g_max_ops = n; }
long fs_ops(void) { return g_ops; }
long fs_kind_ops(int k) { return g_kind_ops[k]; }
const char *fs_log(void) { return g_log ? g_log : ""; }
uint64_t fs_hash(void) { return g_oplog_hash; }
void fs_gate(int req, int ack) { g_gate_req = req; g_gate_ack = ack; }
long fs_open_fds(void) { long n = 0; for (int i = 0; i < MAXFD; i++) n += g_fdmode[i] != 0; return n; }
const char *fs_open_path(long k) { for (int i = 0; i < MAXFD; i++) if (g_fdmode[i]) { if (k-- == 0) return g_fdpath[i]; } return ""; }
void fs_clock(int on, int64_t ns, int64_t step) { g_clock_on = on; g_clock_ns = ns; g_clock_step = step; }
int64_t fs_clock_now(void) { return g_clock_ns; }
long fs_clock_reads(void) { return g_clock_reads; }
int fs_alloc_module(const char *needle) {
    /* restrict allocation faults to calls made from one shared object */
    FILE *f; GET(fopen); f = real_fopen("/proc/self/maps", "r");
    if (!f) return -1;
    char l[1024]; uintptr_t lo = 0, hi = 0;
    while (fgets(l, sizeof l, f)) {
        if (!strstr(l, needle)) continue;
        unsigned long a, b;
        if (sscanf(l, "%lx-%lx", &a, &b) == 2) { if (!lo || a < lo) lo = a; if (b > hi) hi = b; }
    }
    GET(fclose); real_fclose(f);
    g_alloc_lo = lo; g_alloc_hi = hi;
    return lo ? 0 : -1;
}
/* narrow the range to functions of that object: array data only, not numpy's internal work buffers */
void fs_alloc_narrow(unsigned long from, unsigned long to) { g_alloc_hi = g_alloc_lo + to; g_alloc_lo += from; }
void fs_alloc_plan(int on, long min, long fail_at, long len) { g_alloc_min = min; g_alloc_count = 0; g_alloc_fail_at = fail_at; g_alloc_fail_len = len; g_alloc_failed = 0; g_alloc_on = on; }
void fs_alloc_off(void) { g_alloc_on = 0; }
long fs_alloc_count(void) { return g_alloc_count; }
long fs_alloc_failed(void) { return g_alloc_failed; }
