/* File operations of one process, numbered: log them, kill the process at one, fail one, or hand each to a scheduler.
   Loaded with LD_PRELOAD; does nothing until shim_arm() is called. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define LOG 0
#define KILL 1
#define FAIL 2
#define SCHED 4
#define MUTATE 1
#define READ 2
#define NFD 4096

static int armed, mode, torn, err, sticky, classes, log_fd = -1, ask_fd = -1, grant_fd = -1;
static long at, count;
static char prefix[PATH_MAX];
static unsigned char ours[NFD];

void shim_arm(const char *p, int m, long k, int e, int t, int st, int cl, int lfd, int afd, int gfd)
{
    snprintf(prefix, sizeof prefix, "%s", p);
    mode = m; at = k; err = e; torn = t; sticky = st; classes = cl; log_fd = lfd; ask_fd = afd; grant_fd = gfd;
    count = 0;
    memset(ours, 0, sizeof ours);
    armed = 1;
}
long shim_disarm(void) { armed = 0; return count; }
long shim_count(void) { return count; }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)

static int full(int dirfd, const char *path, char *out)
{
    if (path == NULL) return 0;
    if (path[0] == '/' ) { snprintf(out, PATH_MAX, "%s", path); return 1; }
    char base[PATH_MAX]; ssize_t n;
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
    if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    return 1;
}
static int inside(int dirfd, const char *path, char *out)
{
    size_t n = strlen(prefix);
    if (!armed || !full(dirfd, path, out)) return 0;
    return strncmp(out, prefix, n) == 0 && (out[n] == '/' || out[n] == 0);
}
static void die(void) { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

/* number the operation; nonzero: the call has to fail (errno set) */
static int event(int class, const char *name, const char *path, size_t size)
{
    if (!(class & classes)) return 0;
    long k = count++;
    char line[PATH_MAX + 64];
    const char *p = path + (strncmp(path, prefix, strlen(prefix)) == 0 ? strlen(prefix) : 0);
    int n = snprintf(line, sizeof line, "%s %ld %s\n", name, (long)size, p);
    if (log_fd >= 0) syscall(SYS_write, log_fd, line, n);
    if (mode == SCHED) {
        char c;
        if (syscall(SYS_write, ask_fd, line, n) != n) die();
        if (syscall(SYS_read, grant_fd, &c, 1) != 1) die();
        return 0;
    }
    if (mode == KILL && k == at && !torn) die();
    if (mode == FAIL && (k == at || (sticky && k > at)) && !torn) { errno = err; return 1; }
    return 0;
}
static int hit(void) { return torn && (count - 1 == at || (mode == FAIL && sticky && count - 1 > at)); }

static int mutating(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static int do_open(int dirfd, const char *path, int flags, mode_t m)
{
    char f[PATH_MAX];
    int in = inside(dirfd, path, f);
    if (in && event(mutating(flags) ? MUTATE : READ, mutating(flags) ? "open-w" : "open", f, 0)) return -1;
    int fd = syscall(SYS_openat, dirfd, path, flags, m);
    if (fd >= 0 && fd < NFD) ours[fd] = in && (flags & O_ACCMODE) != O_RDONLY;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags | O_LARGEFILE, m); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd >= 0 && fd < NFD) ours[fd] = 0; return syscall(SYS_close, fd); }

FILE *fopen(const char *path, const char *how)
{
    REAL(FILE *, fopen, const char *, const char *);
    char f[PATH_MAX];
    int w = strpbrk(how, "wa+") != NULL;
    if (inside(AT_FDCWD, path, f) && event(w ? MUTATE : READ, w ? "open-w" : "open", f, 0)) return NULL;
    return real(path, how);
}
FILE *fopen64(const char *path, const char *how) { return fopen(path, how); }

static int fdpath(int fd, char *out)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, out, PATH_MAX - 1);
    if (n < 0) n = 0;
    out[n] = 0;
    return 1;
}
static ssize_t do_write(int fd, const void *buf, size_t n)
{
    char f[PATH_MAX];
    if (!armed || fd < 0 || fd >= NFD || !ours[fd]) return syscall(SYS_write, fd, buf, n);
    fdpath(fd, f);
    if (event(MUTATE, "write", f, n)) return -1;
    if (hit()) {
        if (n > 1) syscall(SYS_write, fd, buf, torn == 1 ? n / 2 : torn == 2 ? 1 : n - 1);
        if (mode == KILL) die();
        errno = err;
        return -1;
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{
    char f[PATH_MAX];
    if (armed && fd >= 0 && fd < NFD && ours[fd] && fdpath(fd, f) && event(MUTATE, "write", f, n)) return -1;
    return syscall(SYS_pwrite64, fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return pwrite(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n)
{
    char f[PATH_MAX];
    if (armed && fd >= 0 && fd < NFD && ours[fd] && fdpath(fd, f) && event(MUTATE, "write", f, 0)) return -1;
    return syscall(SYS_writev, fd, v, n);
}
#define FDCALL(name, args, call, sysname) \
    { char f[PATH_MAX]; if (armed && fd >= 0 && fd < NFD && ours[fd] && fdpath(fd, f) && event(MUTATE, name, f, 0)) return -1; return call; }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) FDCALL("write", , syscall(SYS_sendfile, fd, in, o, n), )
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) FDCALL("write", , syscall(SYS_sendfile, fd, in, o, n), )
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned fl) FDCALL("write", , syscall(SYS_copy_file_range, in, oi, fd, oo, n, fl), )
int ftruncate(int fd, off_t n) FDCALL("truncate", , syscall(SYS_ftruncate, fd, n), )
int ftruncate64(int fd, off64_t n) FDCALL("truncate", , syscall(SYS_ftruncate, fd, n), )
int fsync(int fd) FDCALL("fsync", , syscall(SYS_fsync, fd), )
int fdatasync(int fd) FDCALL("fsync", , syscall(SYS_fdatasync, fd), )
int fchmod(int fd, mode_t m) FDCALL("chmod", , syscall(SYS_fchmod, fd, m), )

#define PATHCALL(class, name, d, path, call) { char f[PATH_MAX]; if (inside(d, path, f) && event(class, name, f, 0)) return -1; return call; }
int mkdir(const char *p, mode_t m) PATHCALL(MUTATE, "mkdir", AT_FDCWD, p, syscall(SYS_mkdir, p, m))
int mkdirat(int d, const char *p, mode_t m) PATHCALL(MUTATE, "mkdir", d, p, syscall(SYS_mkdirat, d, p, m))
int rmdir(const char *p) PATHCALL(MUTATE, "rmdir", AT_FDCWD, p, syscall(SYS_rmdir, p))
int unlink(const char *p) PATHCALL(MUTATE, "unlink", AT_FDCWD, p, syscall(SYS_unlink, p))
int unlinkat(int d, const char *p, int fl) PATHCALL(MUTATE, fl & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, syscall(SYS_unlinkat, d, p, fl))
int remove(const char *p) { struct stat s; if (syscall(SYS_newfstatat, AT_FDCWD, p, &s, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(s.st_mode)) return rmdir(p); return unlink(p); }
int truncate(const char *p, off_t n) PATHCALL(MUTATE, "truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n))
int truncate64(const char *p, off64_t n) PATHCALL(MUTATE, "truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n))
int chmod(const char *p, mode_t m) PATHCALL(MUTATE, "chmod", AT_FDCWD, p, syscall(SYS_chmod, p, m))
int fchmodat(int d, const char *p, mode_t m, int fl) PATHCALL(MUTATE, "chmod", d, p, syscall(SYS_fchmodat, d, p, m, fl))
int symlink(const char *t, const char *p) PATHCALL(MUTATE, "symlink", AT_FDCWD, p, syscall(SYS_symlink, t, p))
int link(const char *t, const char *p) PATHCALL(MUTATE, "link", AT_FDCWD, p, syscall(SYS_link, t, p))
int utimensat(int d, const char *p, const struct timespec t[2], int fl)
{ char f[PATH_MAX]; if (p && inside(d, p, f) && event(MUTATE, "utime", f, 0)) return -1; return syscall(SYS_utimensat, d, p, t, fl); }

static int do_rename(int a, const char *p, int b, const char *q, unsigned fl)
{
    char f[PATH_MAX], g[PATH_MAX], both[2 * PATH_MAX + 8];
    int i = inside(a, p, f), j = inside(b, q, g);
    if (i || j) {
        snprintf(both, sizeof both, "%s -> %s", i ? f : p, (j ? g : q) + (j && i ? strlen(prefix) : 0));
        if (event(MUTATE, "rename", both, 0)) return -1;
    }
    return syscall(SYS_renameat2, a, p, b, q, fl);
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return do_rename(a, p, b, q, 0); }
int renameat2(int a, const char *p, int b, const char *q, unsigned fl) { return do_rename(a, p, b, q, fl); }

/* what processes see of each other */
int stat(const char *p, struct stat *s) PATHCALL(READ, "stat", AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, s, 0))
int stat64(const char *p, struct stat64 *s) PATHCALL(READ, "stat", AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, s, 0))
int lstat(const char *p, struct stat *s) PATHCALL(READ, "stat", AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW))
int lstat64(const char *p, struct stat64 *s) PATHCALL(READ, "stat", AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW))
int fstatat(int d, const char *p, struct stat *s, int fl)
{ char f[PATH_MAX]; if (!(fl & AT_EMPTY_PATH) && inside(d, p, f) && event(READ, "stat", f, 0)) return -1; return syscall(SYS_newfstatat, d, p, s, fl); }
int fstatat64(int d, const char *p, struct stat64 *s, int fl)
{ char f[PATH_MAX]; if (!(fl & AT_EMPTY_PATH) && inside(d, p, f) && event(READ, "stat", f, 0)) return -1; return syscall(SYS_newfstatat, d, p, s, fl); }
int access(const char *p, int m) PATHCALL(READ, "stat", AT_FDCWD, p, syscall(SYS_faccessat, AT_FDCWD, p, m))
DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    char f[PATH_MAX];
    if (inside(AT_FDCWD, p, f) && event(READ, "list", f, 0)) return NULL;
    return real(p);
}
