/* Controlled failures of file-system calls on paths below chosen folders. Preloaded; armed through shim_arm() or the
   environment (VERIF_FAULT_AT, VERIF_FAULT_ERRNO, VERIF_FAULT_MODE, VERIF_FAULT_UNDER). Only calls on paths below
   the chosen folders, and on descriptors opened there, are counted and can fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { ONCE = 0, STICKY = 1, SHORT = 2, CRASH = 3, WRITES = 4, TORN = 5 };
#define MAXFD 4096
static char under[8][PATH_MAX];
static int n_under, armed, mode, err_no, spent;
static long at, count, at2;
static unsigned char tracked[MAXFD];
#define MAXLOG 65536
static char logbuf[MAXLOG];
static int loglen;

static void note(const char *what) {
    int l = strlen(what);
    if (loglen + l + 2 < MAXLOG) { memcpy(logbuf + loglen, what, l); loglen += l; logbuf[loglen++] = ' '; logbuf[loglen] = 0; }
}
void shim_clear(void) { n_under = armed = 0; count = 0; loglen = 0; logbuf[0] = 0; memset(tracked, 0, sizeof tracked); spent = 0; }
void shim_under(const char *p) { if (n_under < 8) { strncpy(under[n_under], p, PATH_MAX - 1); n_under++; } }
void shim_arm(long n, int e, int m, long n2) { at = n; err_no = e; mode = m; at2 = n2; count = 0; loglen = 0; logbuf[0] = 0; spent = 0; armed = 1; }
void shim_disarm(void) { armed = 0; }
long shim_count(void) { return count; }
int shim_spent(void) { return spent; }
const char *shim_log(void) { return logbuf; }

__attribute__((constructor)) static void from_env(void) {
    const char *n = getenv("VERIF_FAULT_AT"), *p = getenv("VERIF_FAULT_UNDER");
    if (!n || !p) return;
    char buf[8 * PATH_MAX];
    strncpy(buf, p, sizeof buf - 1); buf[sizeof buf - 1] = 0;
    for (char *t = strtok(buf, ":"); t; t = strtok(NULL, ":")) shim_under(t);
    const char *e = getenv("VERIF_FAULT_ERRNO"), *m = getenv("VERIF_FAULT_MODE");
    shim_arm(atol(n), e ? atoi(e) : EIO, m ? atoi(m) : 0, 0);
}

static int below(int dir, const char *p) {
    char full[2 * PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (dir != AT_FDCWD) return dir >= 0 && dir < MAXFD && tracked[dir];
        if (!getcwd(full, PATH_MAX)) return 0;
        strcat(full, "/"); strncat(full, p, PATH_MAX - 2);
    } else { strncpy(full, p, sizeof full - 1); full[sizeof full - 1] = 0; }
    for (int i = 0; i < n_under; i++) {
        size_t l = strlen(under[i]);
        if (!strncmp(full, under[i], l) && (full[l] == 0 || full[l] == '/')) return 1;
    }
    return 0;
}
static int has(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* 1: this call fails now. */
static int fails(const char *what, int is_write) {
    count++;
    note(what);
    int now = count == at || (at2 && count == at2);
    if (mode == STICKY && at > 0 && count >= at) now = 1;
    if (mode == WRITES || mode == TORN) now = at > 0 && count >= at && is_write;
    if (!now) return 0;
    if (mode == TORN && !spent && !strcmp(what, "write")) { spent++; return 0; }     /* half now, nothing after */
    spent++;
    if (mode == CRASH) _exit(137);
    if (mode == SHORT) return 0;
    errno = err_no;
    return 1;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int opened(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; return fd; }
#define OPENER(name) int name(const char *p, int fl, ...) { \
    REAL(int, name, const char *, int, ...); \
    va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    int in = below(AT_FDCWD, p); \
    if (in && fails((fl & O_ACCMODE) == O_RDONLY ? "open-read" : "open-write", (fl & O_CREAT) != 0)) return -1; \
    int fd = real(p, fl, m); if (in) opened(fd); return fd; }
OPENER(open)
OPENER(open64)
#define OPENERAT(name) int name(int d, const char *p, int fl, ...) { \
    REAL(int, name, int, const char *, int, ...); \
    va_list a; va_start(a, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    int in = below(d, p); \
    if (in && fails((fl & O_ACCMODE) == O_RDONLY ? "open-read" : "open-write", (fl & O_CREAT) != 0)) return -1; \
    int fd = real(d, p, fl, m); if (in) opened(fd); return fd; }
OPENERAT(openat)
OPENERAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (has(fd)) {
        int before = spent;
        if (fails("write", 1)) return -1;
        if ((mode == SHORT || mode == TORN) && spent != before && n > 1) return real(fd, b, n / 2);
    }
    return real(fd, b, n);
}
#define PWRITE(name, off) ssize_t name(int fd, const void *b, size_t n, off o) { \
    REAL(ssize_t, name, int, const void *, size_t, off); if (has(fd) && fails("pwrite", 1)) return -1; return real(fd, b, n, o); }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (has(fd)) {
        int before = spent;
        if (fails("read", 0)) return -1;
        if (mode == SHORT && spent != before && n > 1) return real(fd, b, n / 2);
    }
    return real(fd, b, n);
}
int close(int fd) {
    REAL(int, close, int);
    if (has(fd)) {
        tracked[fd] = 0;
        int wr = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
        if (fails(wr ? "close-written" : "close-read", wr)) {      /* what was written is lost, as a full network disk reports it */
            int e = errno; struct stat s;
            if (wr && fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && s.st_size > 1) { if (ftruncate(fd, s.st_size / 2)) {} }
            real(fd); errno = e; return -1;
        }
    }
    return real(fd);
}
#define PATH1(ret, name, what, w, decl, args) ret name decl { REAL(ret, name, const char *, ...); (void)real; \
    if (below(AT_FDCWD, p) && fails(what, w)) return -1; return ((ret (*) decl)real) args; }
PATH1(int, mkdir, "mkdir", 1, (const char *p, mode_t m), (p, m))
PATH1(int, rmdir, "rmdir", 0, (const char *p), (p))
PATH1(int, unlink, "unlink", 0, (const char *p), (p))
PATH1(int, remove, "unlink", 0, (const char *p), (p))
PATH1(int, chmod, "chmod", 0, (const char *p, mode_t m), (p, m))
PATH1(int, stat, "stat", 0, (const char *p, struct stat *s), (p, s))
PATH1(int, stat64, "stat", 0, (const char *p, struct stat64 *s), (p, s))
PATH1(int, lstat, "stat", 0, (const char *p, struct stat *s), (p, s))
PATH1(int, lstat64, "stat", 0, (const char *p, struct stat64 *s), (p, s))
PATH1(int, access, "access", 0, (const char *p, int m), (p, m))
PATH1(int, truncate, "truncate", 1, (const char *p, off_t n), (p, n))
PATH1(int, truncate64, "truncate", 1, (const char *p, off64_t n), (p, n))
#define PATHAT(ret, name, what, w, decl, args) ret name decl { REAL(ret, name, int, const char *, ...); (void)real; \
    if (below(d, p) && fails(what, w)) return -1; return ((ret (*) decl)real) args; }
PATHAT(int, mkdirat, "mkdir", 1, (int d, const char *p, mode_t m), (d, p, m))
PATHAT(int, unlinkat, "unlink", 0, (int d, const char *p, int f), (d, p, f))
PATHAT(int, fchmodat, "chmod", 0, (int d, const char *p, mode_t m, int f), (d, p, m, f))
PATHAT(int, fstatat, "stat", 0, (int d, const char *p, struct stat *s, int f), (d, p, s, f))
PATHAT(int, fstatat64, "stat", 0, (int d, const char *p, struct stat64 *s, int f), (d, p, s, f))
PATHAT(int, utimensat, "utime", 0, (int d, const char *p, const struct timespec *t, int f), (d, p, t, f))
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *);
    if ((below(AT_FDCWD, a) || below(AT_FDCWD, b)) && fails("rename", 1)) return -1; return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *);
    if ((below(d, a) || below(e, b)) && fails("rename", 1)) return -1; return real(d, a, e, b); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *);
    if ((below(AT_FDCWD, a) || below(AT_FDCWD, b)) && fails("link", 1)) return -1; return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *);
    if (below(AT_FDCWD, b) && fails("symlink", 1)) return -1; return real(a, b); }
#define FD1(ret, name, what, w, decl, args) ret name decl { REAL(ret, name, int, ...); (void)real; \
    if (has(fd) && fails(what, w)) return -1; return ((ret (*) decl)real) args; }
FD1(int, fsync, "fsync", 1, (int fd), (fd))
FD1(int, fdatasync, "fsync", 1, (int fd), (fd))
FD1(int, ftruncate, "truncate", 1, (int fd, off_t n), (fd, n))
FD1(int, ftruncate64, "truncate", 1, (int fd, off64_t n), (fd, n))
FD1(int, fstat, "fstat", 0, (int fd, struct stat *s), (fd, s))
FD1(int, fstat64, "fstat", 0, (int fd, struct stat64 *s), (fd, s))
FD1(int, fchmod, "chmod", 0, (int fd, mode_t m), (fd, m))
FD1(int, futimens, "utime", 0, (int fd, const struct timespec *t), (fd, t))
FD1(off_t, lseek, "lseek", 0, (int fd, off_t o, int h), (fd, o, h))
FD1(off64_t, lseek64, "lseek", 0, (int fd, off64_t o, int h), (fd, o, h))
FD1(ssize_t, sendfile, "sendfile", 1, (int fd, int i, off_t *o, size_t n), (fd, i, o, n))
FD1(ssize_t, sendfile64, "sendfile", 1, (int fd, int i, off64_t *o, size_t n), (fd, i, o, n))
ssize_t copy_file_range(int i, off64_t *a, int fd, off64_t *b, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (has(fd) && fails("copy", 1)) return -1; return real(i, a, fd, b, n, f); }

__attribute__((destructor)) static void report(void) {
    const char *p = getenv("VERIF_FAULT_LOG");
    if (!p) return;
    armed = 0;
    FILE *f = fopen(p, "w");
    if (f) { fprintf(f, "%ld %d %s\n", count, spent, logbuf); fclose(f); }
}
