/* LD_PRELOAD shim: records file modifications below one directory, and injects faults.
 * Inactive until shim_start().  Only touches paths below the directory given there. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { T_OPEN = 1, T_WRITE, T_TRUNC, T_RENAME, T_UNLINK, T_CLOSE };
enum { M_NONE = 0, M_ONCE, M_ALWAYS, M_SHORT };
typedef struct { int type, creat_trunc; long off, len; char *data; char *path; char *path2; int failed; } rec;

static rec *recs; static long nrecs, cap;
static char prefix[PATH_MAX]; static int active;
static long fail_at = -1; static int fail_errno, fail_mode;
#define NFD 4096
static char *fdpath[NFD];

static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = (ret (*)(__VA_ARGS__))real(#name)

void shim_start(const char *dir, long at, int err, int mode) {
    for (long i = 0; i < nrecs; i++) { free(recs[i].data); free(recs[i].path); free(recs[i].path2); }
    nrecs = 0; strncpy(prefix, dir, sizeof prefix - 1);
    fail_at = at; fail_errno = err; fail_mode = mode; active = 1;
}
void shim_stop(void) { active = 0; }
long shim_count(void) { return nrecs; }
rec *shim_get(long i) { return &recs[i]; }

static int mine(const char *p) {
    size_t n = strlen(prefix);
    return active && p && strncmp(p, prefix, n) == 0 && p[n] == '/';
}
static rec *add(int type, const char *path) {
    if (nrecs == cap) { cap = cap ? 2 * cap : 256; recs = realloc(recs, cap * sizeof *recs); }
    rec *x = &recs[nrecs++]; memset(x, 0, sizeof *x);
    x->type = type; x->path = strdup(path); return x;
}
/* does this operation (the one just added) have to fail? */
static int fails(rec *x) {
    long k = nrecs - 1;
    if (fail_mode == M_NONE || fail_mode == M_SHORT) return 0;
    if (x->type == T_CLOSE) return 0;
    if (k == fail_at || (fail_mode == M_ALWAYS && k > fail_at && fail_at >= 0)) {
        x->failed = 1; errno = fail_errno; return 1;
    }
    return 0;
}
static int opened(int fd, const char *p, int flags) {
    if (fd >= 0 && fd < NFD) { free(fdpath[fd]); fdpath[fd] = mine(p) ? strdup(p) : NULL; }
    return fd;
}
#define MODE int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
static int before_open(const char *p, int flags) {
    if (!mine(p) || (flags & O_ACCMODE) == O_RDONLY) return 0;
    rec *x = add(T_OPEN, p);
    x->creat_trunc = ((flags & O_CREAT) ? 1 : 0) | ((flags & O_TRUNC) ? 2 : 0) | ((flags & O_EXCL) ? 4 : 0);
    return fails(x);
}
static void after_open(int fd, const char *p, int flags) {
    if (fd < 0 && mine(p) && (flags & O_ACCMODE) != O_RDONLY && nrecs) recs[nrecs - 1].failed = 1;
}
#define OPENER(name) int name(const char *p, int flags, ...) { MODE \
    REAL(int, name, const char *, int, ...); \
    if (before_open(p, flags)) return -1; \
    int fd = r(p, flags, mode); int e = errno; after_open(fd, p, flags); opened(fd, p, flags); errno = e; return fd; }
OPENER(open)
OPENER(open64)
#define OPENERAT(name) int name(int d, const char *p, int flags, ...) { MODE \
    REAL(int, name, int, const char *, int, ...); \
    if (before_open(p, flags)) return -1; \
    int fd = r(d, p, flags, mode); int e = errno; after_open(fd, p, flags); opened(fd, p, flags); errno = e; return fd; }
OPENERAT(openat)
OPENERAT(openat64)
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    REAL(int, close, int);
    if (fd >= 0 && fd < NFD && fdpath[fd]) {
        if (active) add(T_CLOSE, fdpath[fd]);
        free(fdpath[fd]); fdpath[fd] = NULL;
    }
    return r(fd);
}
static int tracked(int fd) { return active && fd >= 0 && fd < NFD && fdpath[fd]; }
static ssize_t put(int fd, const void *b, size_t n, long off, int pos) {
    static ssize_t (*rw)(int, const void *, size_t); static ssize_t (*rp)(int, const void *, size_t, off_t);
    if (!rw) rw = real("write");
    if (!rp) rp = real("pwrite64");
    if (!tracked(fd)) return pos ? rp(fd, b, n, off) : rw(fd, b, n);
    int append = fcntl(fd, F_GETFL) & O_APPEND;
    if (!pos) off = lseek(fd, 0, append ? SEEK_END : SEEK_CUR);
    rec *x = add(T_WRITE, fdpath[fd]);
    x->off = off;
    if (fails(x)) return -1;
    if (fail_mode == M_SHORT && nrecs - 1 == fail_at) {
        if (fail_errno) { x->failed = 1; errno = fail_errno; return -1; }
        if (n > 1) n = (n + 1) / 2;
    }
    ssize_t k = pos ? rp(fd, b, n, off) : rw(fd, b, n);
    int e = errno;
    if (k < 0) x->failed = 1; else { x->len = k; x->data = malloc(k ? k : 1); memcpy(x->data, b, k); }
    errno = e;
    return k;
}
ssize_t write(int fd, const void *b, size_t n) { return put(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return put(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return put(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!tracked(fd)) return r(fd, v, c);
    return c ? put(fd, v[0].iov_base, v[0].iov_len, 0, 0) : 0;
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (!tracked(o)) return r(o, i, p, n);
    errno = EINVAL; return -1;
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { return sendfile(o, i, (off_t *)p, n); }
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!tracked(o)) return r(i, pi, o, po, n, f);
    errno = ENOSYS; return -1;
}
static int trunc_fd(int fd, long n) {
    static int (*r)(int, off64_t); if (!r) r = real("ftruncate64");
    if (!tracked(fd)) return r(fd, n);
    rec *x = add(T_TRUNC, fdpath[fd]); x->len = n;
    if (fails(x)) return -1;
    int k = r(fd, n); if (k < 0) x->failed = 1; return k;
}
int ftruncate(int fd, off_t n) { return trunc_fd(fd, n); }
int ftruncate64(int fd, off64_t n) { return trunc_fd(fd, n); }
int truncate(const char *p, off_t n) {
    REAL(int, truncate, const char *, off_t);
    if (!mine(p)) return r(p, n);
    rec *x = add(T_TRUNC, p); x->len = n;
    if (fails(x)) return -1;
    int k = r(p, n); if (k < 0) x->failed = 1; return k;
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (!mine(a) && !mine(b)) return r(a, b);
    rec *x = add(T_RENAME, a); x->path2 = strdup(b);
    if (fails(x)) return -1;
    int k = r(a, b); if (k < 0) x->failed = 1; return k;
}
int renameat(int da, const char *a, int db, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (!mine(a) && !mine(b)) return r(da, a, db, b);
    return rename(a, b);
}
int unlink(const char *a) {
    REAL(int, unlink, const char *);
    if (!mine(a)) return r(a);
    rec *x = add(T_UNLINK, a);
    if (fails(x)) return -1;
    int k = r(a); if (k < 0) x->failed = 1; return k;
}
int unlinkat(int d, const char *a, int f) {
    REAL(int, unlinkat, int, const char *, int);
    if (!mine(a) || f) return r(d, a, f);
    return unlink(a);
}
