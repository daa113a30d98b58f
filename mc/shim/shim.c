// Stands between the command line tool and the kernel: numbers the calls that concern the scratch
// directory or the standard output, writes them to a trace, and gives the answers it is told to.
//   MC_DIR     the scratch directory
//   MC_TRACE   where the trace goes
//   MC_ANSWERS n=answer,...  with an errno's name, "short" (one byte only) or "zero"
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int count, trace = -1;
static char known[1024];
static const char *dir, *answers;

__attribute__((constructor)) static void init(void) {
    dir = getenv("MC_DIR");
    answers = getenv("MC_ANSWERS");
    const char *t = getenv("MC_TRACE");
    if (t) {
        int fd = syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
        trace = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
        syscall(SYS_close, fd);
    }
}

static int ours(const char *p) { return dir && p && strncmp(p, dir, strlen(dir)) == 0; }
static int fd_ours(int fd) { return fd == 1 || (fd >= 0 && fd < 1024 && known[fd]); }

// the answer to this call: 0 the kernel's, -1 short, -2 zero, else an errno
static int next(const char *name, int fd, int out) {
    char b[96];
    int n = count++, a = 0;
    for (const char *s = answers; s && *s;) {
        int k = atoi(s);
        const char *v = strchr(s, '=');
        if (!v) break;
        v++;
        if (k == n) {
            if (!strncmp(v, "short", 5)) a = -1;
            else if (!strncmp(v, "zero", 4)) a = -2;
            else if (!strncmp(v, "EIO", 3)) a = EIO;
            else if (!strncmp(v, "EINTR", 5)) a = EINTR;
            else if (!strncmp(v, "ENOSPC", 6)) a = ENOSPC;
            else if (!strncmp(v, "EACCES", 6)) a = EACCES;
            else if (!strncmp(v, "EMFILE", 6)) a = EMFILE;
            else if (!strncmp(v, "ENOENT", 6)) a = ENOENT;
            else if (!strncmp(v, "EPIPE", 5)) a = EPIPE;
            else if (!strncmp(v, "EROFS", 5)) a = EROFS;
            else abort();
        }
        s = strchr(v, ',');
        if (s) s++;
    }
    int l = snprintf(b, sizeof b, "%s %s\n", name, fd == 1 ? "stdout" : out ? "out" : "in");
    if (trace >= 0) syscall(SYS_write, trace, b, l);
    return a;
}
static int opened(int fd) {
    if (fd >= 0 && fd < 1024) known[fd] = 1;
    return fd;
}
static int do_open(int at, const char *p, int flags, mode_t mode) {
    if (!ours(p) || (flags & O_DIRECTORY)) return syscall(SYS_openat, at, p, flags, mode);
    int a = next((flags & O_ACCMODE) == O_RDONLY ? "open" : (flags & O_TRUNC) ? "create" : "openw", -1, (flags & O_ACCMODE) != O_RDONLY);
    if (a > 0) { errno = a; return -1; }
    return opened(syscall(SYS_openat, at, p, flags, mode));
}
#define OPEN(name) \
    int name(const char *p, int flags, ...) { va_list v; va_start(v, flags); mode_t m = va_arg(v, int); va_end(v); return do_open(AT_FDCWD, p, flags, m); }
#define OPENAT(name) \
    int name(int at, const char *p, int flags, ...) { va_list v; va_start(v, flags); mode_t m = va_arg(v, int); va_end(v); return do_open(at, p, flags, m); }
OPEN(open) OPEN(open64) OPENAT(openat) OPENAT(openat64)

ssize_t read(int fd, void *b, size_t n) {
    if (fd == 1 || !fd_ours(fd)) return syscall(SYS_read, fd, b, n);
    int a = next("read", fd, 0);
    if (a > 0) { errno = a; return -1; }
    return syscall(SYS_read, fd, b, a == -1 && n > 1 ? 1 : n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!fd_ours(fd)) return syscall(SYS_write, fd, b, n);
    int a = next("write", fd, 1);
    if (a > 0) { errno = a; return -1; }
    if (a == -2) return 0;
    return syscall(SYS_write, fd, b, a == -1 && n > 1 ? 1 : n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!fd_ours(fd)) return syscall(SYS_writev, fd, v, n);
    int a = next("write", fd, 1);
    if (a > 0) { errno = a; return -1; }
    if (a == -2) return 0;
    if (a == -1)
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, 1);
    return syscall(SYS_writev, fd, v, n);
}
int close(int fd) {
    if (fd >= 0 && fd < 1024) known[fd] = 0;
    return syscall(SYS_close, fd);
}
#define OTHER(name, params, test, nr, ...) \
    int name params { if (test) { int a = next(#name, -1, 1); if (a > 0) { errno = a; return -1; } } return syscall(nr, __VA_ARGS__); }
OTHER(ftruncate, (int fd, off_t l), fd_ours(fd), SYS_ftruncate, fd, l)
OTHER(ftruncate64, (int fd, off_t l), fd_ours(fd), SYS_ftruncate, fd, l)
OTHER(fsync, (int fd), fd_ours(fd), SYS_fsync, fd)
OTHER(fdatasync, (int fd), fd_ours(fd), SYS_fdatasync, fd)
OTHER(rename, (const char *a_, const char *b_), ours(a_), SYS_rename, a_, b_)
OTHER(unlink, (const char *p), ours(p), SYS_unlink, p)
