/* Records the file-system calls a process makes inside one directory and, on request,
   ends the process at one of them or makes it fail.  Loaded with LD_PRELOAD.
   OXO_DIR   directory watched        OXO_LOG  file the calls are appended to
   OXO_MODE  record | crash:K | half:K | fail:K:ERRNO | failfrom:K:ERRNO | short:K   (calls count from 1)
   a second fault after the first:  OXO_MODE2, same form */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <pthread.h>

#define MAXFD 4096
static char watch[MAXFD];
static char dir[1024];
static size_t dirlen;
static int logfd = -1, on = 0;
static long count = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
struct mode { int kind; long k; int err; };
static struct mode m1, m2;
enum { NONE, CRASH, HALF, FAIL, FAILFROM, SHORT };

static struct mode parse(const char *s) {
    struct mode m = {NONE, 0, EIO};
    if (!s) return m;
    char buf[64];
    snprintf(buf, sizeof buf, "%s", s);
    char *a = strtok(buf, ":"), *b = strtok(NULL, ":"), *c = strtok(NULL, ":");
    if (!a || !b) return m;
    m.kind = !strcmp(a, "crash") ? CRASH : !strcmp(a, "half") ? HALF : !strcmp(a, "fail") ? FAIL : !strcmp(a, "failfrom") ? FAILFROM : !strcmp(a, "short") ? SHORT : NONE;
    m.k = atol(b);
    if (c) m.err = atoi(c);
    return m;
}

__attribute__((constructor)) static void init(void) {
    const char *d = getenv("OXO_DIR"), *l = getenv("OXO_LOG");
    if (!d || !l) return;
    snprintf(dir, sizeof dir, "%s", d);
    dirlen = strlen(dir);
    m1 = parse(getenv("OXO_MODE"));
    m2 = parse(getenv("OXO_MODE2"));
    logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    on = logfd >= 0;
}

/* absolute path, without resolving the last component */
static int inside(int at, const char *p, char *out, size_t n) {
    char base[2048] = "";
    if (!on || !p) return 0;
    if (p[0] != '/') {
        if (at == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", at);
            ssize_t z = readlink(link, base, sizeof base - 1);
            if (z < 0) return 0;
            base[z] = 0;
        }
        while (p[0] == '.' && p[1] == '/') p += 2;
        snprintf(out, n, "%s/%s", base, p);
    } else snprintf(out, n, "%s", p);
    return !strncmp(out, dir, dirlen) && out[dirlen] == '/';
}

static void quote(char *o, size_t n, const char *s) {
    size_t j = 0;
    for (; *s && j + 8 < n; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o[j++] = '\\'; o[j++] = c; }
        else if (c < 32) j += snprintf(o + j, n - j, "\\u%04x", c);
        else o[j++] = c;
    }
    o[j] = 0;
}

static void note(long k, const char *call, const char *a, const char *b, long fd, long ret, int err, const char *x) {
    char qa[4096], qb[4096], buf[9000];
    quote(qa, sizeof qa, a ? a + dirlen + 1 : "");
    quote(qb, sizeof qb, b ? b + dirlen + 1 : "");
    int n = snprintf(buf, sizeof buf, "{\"k\":%ld,\"call\":\"%s\",\"a\":\"%s\",\"b\":\"%s\",\"fd\":%ld,\"ret\":%ld,\"err\":%d,\"x\":\"%s\"}\n", k, call, qa, qb, fd, ret, err, x ? x : "");
    syscall(SYS_write, logfd, buf, n);
}

/* returns 0 go on, 1 fail with errno set, 2 half/short write */
static int gate(long *k, int iswrite, int canfail) {
    *k = __sync_add_and_fetch(&count, 1);
    struct mode *ms[2] = {&m1, &m2};
    for (int i = 0; i < 2; i++) {
        struct mode *m = ms[i];
        if (m->kind == CRASH && *k == m->k) { note(*k, "crash", 0, 0, -1, 0, 0, ""); _exit(99); }
        if (m->kind == HALF && *k == m->k) { if (iswrite) return 3; note(*k, "crash", 0, 0, -1, 0, 0, ""); _exit(99); }
        if (canfail && m->kind == FAIL && *k == m->k) { errno = m->err; return 1; }
        if (canfail && m->kind == FAILFROM && *k >= m->k) { errno = m->err; return 1; }
        if (m->kind == SHORT && *k == m->k && iswrite) return 2;
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int doopen(const char *name, int at, const char *p, int flags, mode_t mode) {
    char full[4096];
    int mut = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY;
    if (!mut || !inside(at, p, full, sizeof full)) return syscall(SYS_openat, at, p, flags, mode);
    long k;
    char x[64];
    snprintf(x, sizeof x, "%s%s%s%s", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", flags & O_EXCL ? "x" : "", flags & O_APPEND ? "a" : "");
    if (gate(&k, 0, 1) == 1) { int e = errno; note(k, "open", full, 0, -1, -1, e, x); errno = e; return -1; }
    int fd = syscall(SYS_openat, at, p, flags, mode), e = errno;
    note(k, "open", full, 0, fd, fd < 0 ? -1 : 0, fd < 0 ? e : 0, x);
    if (fd >= 0 && fd < MAXFD) watch[fd] = 1;
    errno = e;
    return fd;
}
#define MODE(fl) mode_t mode = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); mode = va_arg(v, int); va_end(v); }
int open(const char *p, int f, ...) { MODE(f); return doopen("open", AT_FDCWD, p, f, mode); }
int open64(const char *p, int f, ...) { MODE(f); return doopen("open", AT_FDCWD, p, f | O_LARGEFILE, mode); }
int openat(int at, const char *p, int f, ...) { MODE(f); return doopen("open", at, p, f, mode); }
int openat64(int at, const char *p, int f, ...) { MODE(f); return doopen("open", at, p, f | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return doopen("open", AT_FDCWD, p, O_CREAT | O_TRUNC | O_WRONLY, mode); }
int creat64(const char *p, mode_t mode) { return creat(p, mode); }

static int seen(int fd) { return on && fd >= 0 && fd < MAXFD && watch[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
    if (!seen(fd)) return syscall(SYS_write, fd, b, n);
    long k;
    int g = gate(&k, 1, 1), e = errno;
    if (g == 1) { note(k, "write", 0, 0, fd, -1, e, ""); errno = e; return -1; }
    if (g == 3) { long r = syscall(SYS_write, fd, b, n / 2); note(k, "write", 0, 0, fd, r, 0, "half"); note(k, "crash", 0, 0, -1, 0, 0, ""); _exit(99); }
    if (g == 2 && n > 1) n = n / 2;
    ssize_t r = syscall(SYS_write, fd, b, n);
    e = errno;
    note(k, "write", 0, 0, fd, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!seen(fd)) return syscall(SYS_writev, fd, v, c);
    if (c < 1) return 0;
    return write(fd, v[0].iov_base, v[0].iov_len);
}
static ssize_t pw(int fd, const void *b, size_t n, off_t o) {
    if (!seen(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    long k;
    int g = gate(&k, 1, 1), e = errno;
    if (g == 1) { note(k, "write", 0, 0, fd, -1, e, ""); errno = e; return -1; }
    if (g == 3) { long r = syscall(SYS_pwrite64, fd, b, n / 2, o); note(k, "write", 0, 0, fd, r, 0, "half"); note(k, "crash", 0, 0, -1, 0, 0, ""); _exit(99); }
    if (g == 2 && n > 1) n = n / 2;
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    e = errno;
    note(k, "write", 0, 0, fd, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
/* a copy inside the kernel is one mutation of the target */
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    if (!seen(b)) return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
    errno = EXDEV; /* make the caller fall back to reads and writes */
    return -1;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (!seen(o)) return syscall(SYS_sendfile, o, i, off, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }

int close(int fd) {
    if (!seen(fd)) return syscall(SYS_close, fd);
    long k;
    gate(&k, 0, 0);
    watch[fd] = 0;
    note(k, "close", 0, 0, fd, 0, 0, "");
    return syscall(SYS_close, fd);
}
#define FD1(name, call, sys, args, pass) \
    int name args { \
        if (!seen(fd)) return syscall pass; \
        long k; \
        int g = gate(&k, 0, 1), e = errno; \
        if (g == 1) { note(k, call, 0, 0, fd, -1, e, ""); errno = e; return -1; } \
        int r = syscall pass; \
        e = errno; note(k, call, 0, 0, fd, r, r < 0 ? e : 0, ""); errno = e; \
        return r; \
    }
FD1(ftruncate, "trunc", SYS_ftruncate, (int fd, off_t n), (SYS_ftruncate, fd, n))
FD1(ftruncate64, "trunc", SYS_ftruncate, (int fd, off64_t n), (SYS_ftruncate, fd, n))
FD1(fchmod, "chmod", SYS_fchmod, (int fd, mode_t m), (SYS_fchmod, fd, m))
FD1(fsync, "sync", SYS_fsync, (int fd), (SYS_fsync, fd))
FD1(fdatasync, "sync", SYS_fdatasync, (int fd), (SYS_fdatasync, fd))

static int path1(const char *call, int at, const char *p, int sys, int x) {
    char full[4096];
    long k;
    int in = inside(at, p, full, sizeof full);
    if (in) {
        int g = gate(&k, 0, 1), e = errno;
        if (g == 1) { note(k, call, full, 0, -1, -1, e, ""); errno = e; return -1; }
    }
    int r = syscall(sys, at, p, x);
    int e = errno;
    if (in) note(k, call, full, 0, -1, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}
int unlink(const char *p) { return path1("unlink", AT_FDCWD, p, SYS_unlinkat, 0); }
int unlinkat(int at, const char *p, int f) { return path1(f & AT_REMOVEDIR ? "rmdir" : "unlink", at, p, SYS_unlinkat, f); }
int rmdir(const char *p) { return path1("rmdir", AT_FDCWD, p, SYS_unlinkat, AT_REMOVEDIR); }
int remove(const char *p) { int r = unlink(p); return r && (errno == EISDIR || errno == EPERM) ? rmdir(p) : r; }
int mkdir(const char *p, mode_t m) { return path1("mkdir", AT_FDCWD, p, SYS_mkdirat, m); }
int chmod(const char *p, mode_t m) { return path1("chmodp", AT_FDCWD, p, SYS_fchmodat, m); }
int truncate(const char *p, off_t n) {
    int fd = doopen("open", AT_FDCWD, p, O_WRONLY, 0);
    if (fd < 0) return -1;
    int r = ftruncate(fd, n);
    close(fd);
    return r;
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }

static int path2(const char *call, int at, const char *p, int bt, const char *q, int sys, unsigned fl) {
    char a[4096], b[4096];
    long k;
    int ia = inside(at, p, a, sizeof a), ib = inside(bt, q, b, sizeof b);
    if (ia || ib) {
        int g = gate(&k, 0, 1), e = errno;
        if (g == 1) { note(k, call, ia ? a : 0, ib ? b : 0, -1, -1, e, ""); errno = e; return -1; }
    }
    int r = syscall(sys, at, p, bt, q, fl);
    int e = errno;
    if (ia || ib) note(k, call, ia ? a : 0, ib ? b : 0, -1, r, r < 0 ? e : 0, "");
    errno = e;
    return r;
}
int rename(const char *a, const char *b) { return path2("rename", AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, 0); }
int renameat(int at, const char *a, int bt, const char *b) { return path2("rename", at, a, bt, b, SYS_renameat2, 0); }
int renameat2(int at, const char *a, int bt, const char *b, unsigned f) { return path2(f ? "exchange" : "rename", at, a, bt, b, SYS_renameat2, f); }
int link(const char *a, const char *b) { return path2("link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int at, const char *a, int bt, const char *b, int f) { return path2("link", at, a, bt, b, SYS_linkat, f); }
