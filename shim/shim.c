/* Fault injection for the file layer. Preloaded into the driver; counts the file-system
 * calls that concern paths below VP_SHIM_DIR while armed, and at call number `at` ends the
 * process or makes the call fail. Controlled through the shared memory file VP_SHIM_CTL. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

struct ctl {
    volatile int32_t mode;   /* 0 off, 1 count, 2 end the process, 3 fail once, 4 fail from then on, 5 stop until the mode changes, 6 pause `part` ms */
    volatile int32_t at;     /* number of the call, from 1 */
    volatile int32_t err;    /* errno of failing calls */
    volatile int32_t part;   /* a write at `at` stores this many percent of its bytes first (-1: all) */
    volatile int32_t count;  /* calls so far */
    volatile int32_t hit;    /* set when the fault happened */
    volatile int32_t muts;   /* only calls that change something count */
    volatile int32_t loglen;
    char log[1 << 20];       /* one line per call */
};
static struct ctl *C;
static const char *dir;
static size_t dirlen;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define NFD 4096
static char *fdpath[NFD];
#define NDIR 64
static DIR *dirs[NDIR];
static char *dirpath[NDIR];

__attribute__((constructor)) static void init(void) {
    const char *p = getenv("VP_SHIM_CTL");
    dir = getenv("VP_SHIM_DIR");
    if (!p || !dir) return;
    dirlen = strlen(dir);
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR);
    if (fd < 0) return;
    void *m = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m != MAP_FAILED) C = m;
}
static int mine(const char *p) { return C && p && !strncmp(p, dir, dirlen) && (p[dirlen] == '/' || !p[dirlen]); }
static void note(const char *kind, const char *p, const char *q, long n) {
    int room = sizeof(C->log) - C->loglen - 1;
    if (room < 300) return;
    int k = snprintf(C->log + C->loglen, room, "%s\x1f" "%s\x1f" "%s\x1f" "%ld\n", kind, p + dirlen, q ? q + (mine(q) ? dirlen : 0) : "", n);
    if (k > 0 && k < room) C->loglen += k;
}
/* 0: go on; 1: fail now; 2: end now */
static int event(const char *kind, const char *p, const char *q, long n, int mut) {
    int r = 0;
    pthread_mutex_lock(&mu);
    if (C->mode && (mut || !C->muts)) {
        C->count++;
        note(kind, p, q, n);
        if (C->mode == 2 && C->count == C->at) r = 2;
        if (C->mode == 3 && C->count == C->at) r = 1;
        if (C->mode == 4 && C->count >= C->at && mut) r = 1;
        if (r) C->hit = C->hit ? C->hit + 1 : 1;
    }
    int w = C->mode >= 5 && C->count == C->at && (mut || !C->muts) ? C->mode : 0;
    if (w) C->hit = 1;
    pthread_mutex_unlock(&mu);
    if (w == 6) usleep(1000 * C->part);
    for (int i = 0; w == 5 && C->mode == 5 && i < 60000; i++) usleep(500);
    return r;
}
static void die(void) { for (;;) syscall(SYS_exit_group, 99); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define GATE(kind, p, q, mut) do { if (mine(p)) { int e_ = event(kind, p, q, 0, mut); if (e_ == 2) die(); if (e_ == 1) { errno = C->err; return -1; } } } while (0)

static void setfd(int fd, const char *p) {
    if (fd < 0 || fd >= NFD) return;
    pthread_mutex_lock(&mu);
    free(fdpath[fd]);
    fdpath[fd] = mine(p) ? strdup(p) : 0;
    pthread_mutex_unlock(&mu);
}
static int getfd(int fd, char *out) {
    int ok = 0;
    if (!C || fd < 0 || fd >= NFD) return 0;
    pthread_mutex_lock(&mu);
    if (fdpath[fd]) { strncpy(out, fdpath[fd], 4095); out[4095] = 0; ok = 1; }
    pthread_mutex_unlock(&mu);
    return ok;
}
static int do_open(const char *p, int fl, int mode, int at) {
    int mut = (fl & (O_CREAT | O_TRUNC)) != 0;
    if (mine(p)) {
        int e_ = event(mut ? "create" : "open", p, 0, 0, mut);
        if (e_ == 2) die();
        if (e_ == 1) { errno = C->err; return -1; }
    }
    int fd = syscall(SYS_openat, at, p, fl | O_LARGEFILE, mode);
    if (fd >= 0 && C) setfd(fd, p);
    return fd;
}
#define MODE int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(p, fl, mode, AT_FDCWD); }
int open64(const char *p, int fl, ...) { MODE return do_open(p, fl, mode, AT_FDCWD); }
int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
int creat64(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m, AT_FDCWD); }
static int at_path(int at, const char *p, char *out) {
    if (p && p[0] == '/') { strncpy(out, p, 4095); out[4095] = 0; return 1; }
    char b[4096];
    if (at != AT_FDCWD && getfd(at, b)) { snprintf(out, 4096, "%s/%s", b, p); return 1; }
    return 0;
}
static int do_openat(int at, const char *p, int fl, int mode) {
    char b[4096];
    if (at_path(at, p, b) && mine(b)) {
        int mut = (fl & (O_CREAT | O_TRUNC)) != 0;
        int e_ = event(mut ? "create" : "open", b, 0, 0, mut);
        if (e_ == 2) die();
        if (e_ == 1) { errno = C->err; return -1; }
        int fd = syscall(SYS_openat, at, p, fl | O_LARGEFILE, mode);
        if (fd >= 0) setfd(fd, b);
        return fd;
    }
    return syscall(SYS_openat, at, p, fl | O_LARGEFILE, mode);
}
int openat(int at, const char *p, int fl, ...) { MODE return do_openat(at, p, fl, mode); }
int openat64(int at, const char *p, int fl, ...) { MODE return do_openat(at, p, fl, mode); }
int close(int fd) {
    if (C && fd >= 0 && fd < NFD) { pthread_mutex_lock(&mu); free(fdpath[fd]); fdpath[fd] = 0; pthread_mutex_unlock(&mu); }
    return syscall(SYS_close, fd);
}
static ssize_t wr(int fd, const void *b, size_t n, off_t off, int pos) {
    return pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int pos) {
    char p[4096];
    if (getfd(fd, p)) {
        int e_ = event("write", p, 0, n, 1);
        size_t part = C->part < 0 ? n : n * C->part / 100;
        if (e_ == 2) { if (part) wr(fd, b, part, off, pos); die(); }
        if (e_ == 1) {
            /* the first failing write of a full disk may store a part */
            if (part && part < n && C->hit == 1) return wr(fd, b, part, off, pos);
            errno = C->err;
            return -1;
        }
    }
    return wr(fd, b, n, off, pos);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    char p[4096];
    if (getfd(fd, p)) {
        size_t n = 0;
        for (int i = 0; i < c; i++) n += v[i].iov_len;
        int e_ = event("write", p, 0, n, 1);
        if (e_ == 2) { if (C->part && c) wr(fd, v[0].iov_base, v[0].iov_len, 0, 0); die(); }
        if (e_ == 1) { errno = C->err; return -1; }
    }
    return syscall(SYS_writev, fd, v, c);
}
#define FDOP(kind, mut) do { char p_[4096]; if (getfd(fd, p_)) GATE(kind, p_, 0, mut); } while (0)
ssize_t read(int fd, void *b, size_t n) { FDOP("read", 0); return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { FDOP("read", 0); return syscall(SYS_pread64, fd, b, n, o); }
int fsync(int fd) { FDOP("fsync", 1); return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { FDOP("fsync", 1); return syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) { FDOP("truncate", 1); return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { FDOP("truncate", 1); return syscall(SYS_ftruncate, fd, n); }
/* in-kernel copies are refused, so that callers fall back to read and write */
#define NOCOPY { char p_[4096]; if (getfd(fd, p_)) { errno = EINVAL; return -1; } }
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) { NOCOPY return syscall(SYS_copy_file_range, in, oi, fd, oo, n, f); }
ssize_t splice(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) { NOCOPY return syscall(SYS_splice, in, oi, fd, oo, n, f); }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { NOCOPY return syscall(SYS_sendfile, fd, in, o, n); }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { NOCOPY return syscall(SYS_sendfile, fd, in, o, n); }
int rename(const char *a, const char *b) { GATE("rename", mine(a) ? a : b, mine(a) ? b : a, 1); return syscall(SYS_rename, a, b); }
int renameat(int x, const char *a, int y, const char *b) { GATE("rename", a, b, 1); return syscall(SYS_renameat, x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { GATE("rename", a, b, 1); return syscall(SYS_renameat2, x, a, y, b, f); }
int link(const char *a, const char *b) { GATE("link", a, b, 1); return syscall(SYS_link, a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { GATE("link", a, b, 1); return syscall(SYS_linkat, x, a, y, b, f); }
int unlink(const char *p) { GATE("unlink", p, 0, 1); return syscall(SYS_unlink, p); }
int unlinkat(int at, const char *p, int f) { char b[4096]; if (at_path(at, p, b)) GATE("unlink", b, 0, 1); return syscall(SYS_unlinkat, at, p, f); }
int rmdir(const char *p) { GATE("rmdir", p, 0, 1); return syscall(SYS_rmdir, p); }
int mkdir(const char *p, mode_t m) { GATE("mkdir", p, 0, 1); return syscall(SYS_mkdir, p, m); }
int mkdirat(int at, const char *p, mode_t m) { GATE("mkdir", p, 0, 1); return syscall(SYS_mkdirat, at, p, m); }
int statx(int at, const char *p, int f, unsigned mask, struct statx *s) {
    const char *volatile q = p; /* callers probe with null pointers */
    char b[4096];
    if (q && *q && at_path(at, p, b)) GATE("stat", b, 0, 0);
    return syscall(SYS_statx, at, p, f, mask, s);
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    if (mine(p)) {
        int e_ = event("opendir", p, 0, 0, 0);
        if (e_ == 2) die();
        if (e_ == 1) { errno = C->err; return 0; }
    }
    DIR *d = real(p);
    if (d && mine(p)) {
        setfd(dirfd(d), p);
        pthread_mutex_lock(&mu);
        for (int i = 0; i < NDIR; i++) if (!dirs[i]) { dirs[i] = d; dirpath[i] = strdup(p); break; }
        pthread_mutex_unlock(&mu);
    }
    return d;
}
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    if (C) {
        pthread_mutex_lock(&mu);
        for (int i = 0; i < NDIR; i++) if (dirs[i] == d) { dirs[i] = 0; free(dirpath[i]); dirpath[i] = 0; }
        pthread_mutex_unlock(&mu);
    }
    return real(d);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    if (C) {
        char p[4096] = "";
        pthread_mutex_lock(&mu);
        for (int i = 0; i < NDIR; i++) if (dirs[i] == d) { strncpy(p, dirpath[i], 4095); p[4095] = 0; }
        pthread_mutex_unlock(&mu);
        if (*p) {
            int e_ = event("readdir", p, 0, 0, 0);
            if (e_ == 2) die();
            if (e_ == 1) { errno = C->err; return 0; }
        }
    }
    return real(d);
}
