/* Preloaded under the code that is tested: reads of a file whose name ends in "@<schedule>.json" are cut into
 * pieces and fail as its schedule says; VERIF_STDIN holds a schedule for standard input.
 * Schedule: items separated by '_': a number n (the next read returns at most n bytes), E (the read is
 * interrupted, EINTR), X (the read fails with EIO, and so do all later ones), O (opening fails with EACCES).
 * After the last item reads are not touched.
 * VERIF_WRITE holds a schedule for standard output and files opened for writing: at most n bytes are taken, EINTR,
 * ENOSPC (X) from there on. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static struct { char *plan; char *at; int broken; } fds[MAXFD];
static struct { const char *at; int broken; } outs[MAXFD];
static const char *writes;
static ssize_t (*real_write)(int, const void *, size_t);
static ssize_t (*real_writev)(int, const struct iovec *, int);
static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_readv)(int, const struct iovec *, int);
static int (*real_open64)(const char *, int, ...);
static int (*real_openat64)(int, const char *, int, ...);
static int (*real_close)(int);

static void plan_for(int fd, const char *p, size_t n) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fds[fd].plan);
    fds[fd].plan = fds[fd].at = strndup(p, n);
    fds[fd].broken = 0;
}

__attribute__((constructor)) static void init(void) {
    real_read = dlsym(RTLD_NEXT, "read");
    real_readv = dlsym(RTLD_NEXT, "readv");
    real_open64 = dlsym(RTLD_NEXT, "open64");
    real_openat64 = dlsym(RTLD_NEXT, "openat64");
    real_close = dlsym(RTLD_NEXT, "close");
    const char *s = getenv("VERIF_STDIN");
    if (s) plan_for(0, s, strlen(s));
    real_write = dlsym(RTLD_NEXT, "write");
    real_writev = dlsym(RTLD_NEXT, "writev");
    writes = getenv("VERIF_WRITE");
    outs[1].at = writes;
}

static const char *schedule_of(const char *path, size_t *n) {
    const char *at = strrchr(path, '@');
    size_t len;
    if (!at) return 0;
    len = strlen(at);
    if (len < 6 || strcmp(at + len - 5, ".json")) return 0;
    *n = len - 6;
    return at + 1;
}

static int for_writing(int fd, int flags) {
    if (fd >= 0 && fd < MAXFD) { outs[fd].at = (flags & O_ACCMODE) == O_RDONLY ? 0 : writes; outs[fd].broken = 0; }
    return fd;
}
static int opened(const char *path, int fd) {
    size_t n;
    const char *s = schedule_of(path, &n);
    if (s && fd >= 0) plan_for(fd, s, n);
    return fd;
}
static int refused(const char *path) {
    size_t n;
    const char *s = schedule_of(path, &n);
    if (s && n == 1 && *s == 'O') { errno = EACCES; return 1; }
    return 0;
}

#define MODE(flags) mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *path, int flags, ...) { MODE(flags) if (refused(path)) return -1; return opened(path, for_writing(real_open64(path, flags, mode), flags)); }
int open(const char *path, int flags, ...) { MODE(flags) if (refused(path)) return -1; return opened(path, for_writing(real_open64(path, flags, mode), flags)); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) if (refused(path)) return -1; return opened(path, for_writing(real_openat64(d, path, flags, mode), flags)); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) if (refused(path)) return -1; return opened(path, for_writing(real_openat64(d, path, flags, mode), flags)); }
int close(int fd) {
    if (fd >= 0 && fd < MAXFD) outs[fd].at = 0;
    if (fd >= 0 && fd < MAXFD && fds[fd].plan) { free(fds[fd].plan); fds[fd].plan = 0; fds[fd].broken = 0; }
    return real_close(fd);
}

/* 0: read as asked; -1: errno is set; n > 0: at most n bytes */
static long item(int fd) {
    char *e, *p;
    long n;
    if (fds[fd].broken) { errno = EIO; return -1; }
    p = fds[fd].at;
    if (!*p) return 0;
    if (*p == 'E') { n = -1; errno = EINTR; e = p + 1; }
    else if (*p == 'X') { n = -1; errno = EIO; fds[fd].broken = 1; e = p + 1; }
    else n = strtol(p, &e, 10);
    if (*e == '_') e++;
    fds[fd].at = e;
    return n;
}
/* a read smaller than the piece leaves the rest of the piece for the next one */
static void rest(int fd, long n) {
    char buf[64];
    size_t len = strlen(fds[fd].at);
    char *p;
    if (n <= 0) return;
    p = malloc(len + sizeof buf);
    int k = 0;
    for (char tmp[32], *t = tmp + 31; n >= 0;) { *t = 0; long m = n; do { *--t = '0' + m % 10; m /= 10; } while (m); while (*t) buf[k++] = *t++; break; }
    if (len) buf[k++] = '_';
    memcpy(p, buf, k);
    memcpy(p + k, fds[fd].at, len + 1);
    free(fds[fd].plan);
    fds[fd].plan = fds[fd].at = p;
}
ssize_t read(int fd, void *buf, size_t count) {
    if (fd >= 0 && fd < MAXFD && fds[fd].plan && count > 0) {
        long n = item(fd);
        if (n < 0) return -1;
        if (n > 0) {
            size_t want = (size_t)n < count ? (size_t)n : count;
            ssize_t got = real_read(fd, buf, want);
            if (got > 0) rest(fd, n - got);
            return got;
        }
    }
    return real_read(fd, buf, count);
}
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
    if (fd >= 0 && fd < MAXFD && fds[fd].plan) {
        for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
        return 0;
    }
    return real_readv(fd, iov, cnt);
}
ssize_t write(int fd, const void *buf, size_t count) {
    if (!real_write) real_write = dlsym(RTLD_NEXT, "write");
    if (fd >= 0 && fd < MAXFD && outs[fd].at && count > 0) {
        char *e;
        long n;
        if (outs[fd].broken) { errno = ENOSPC; return -1; }
        const char *p = outs[fd].at;
        if (!*p) return real_write(fd, buf, count);
        if (*p == 'X') { outs[fd].broken = 1; errno = ENOSPC; return -1; }
        if (*p == 'E') { e = (char *)p + 1; n = 0; }
        else n = strtol(p, &e, 10);
        if (*e == '_') e++;
        outs[fd].at = e;
        if (n <= 0) { errno = EINTR; return -1; }
        return real_write(fd, buf, (size_t)n < count ? (size_t)n : count);
    }
    return real_write(fd, buf, count);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (!real_writev) real_writev = dlsym(RTLD_NEXT, "writev");
    if (fd >= 0 && fd < MAXFD && outs[fd].at) {
        for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
        return 0;
    }
    return real_writev(fd, iov, cnt);
}
