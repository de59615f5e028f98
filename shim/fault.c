/* Counts the file operations a process makes below one directory, and makes one of them fail, stop the
 * process, or stop it half way through.  Configuration by environment:
 *   VF_DIR   directory watched          VF_KIND  w: changes, r: reads and listings
 *   VF_AT    number of the operation    VF_MODE  err:<errno> | kill | torn | short | eof | count
 *   VF_LOG   file that gets one line per counted operation */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[PATH_MAX];
static size_t dirlen;
static char kind = 'w';
static long at = -1, count = 0;
static int mode = 0, err = 0, logfd = -1, ready = 0;
static char fds[65536];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

__attribute__((constructor)) static void init(void)
{
    const char *d = getenv("VF_DIR"), *m = getenv("VF_MODE"), *k = getenv("VF_KIND"), *a = getenv("VF_AT"), *l = getenv("VF_LOG");
    if (!d) return;
    if (!realpath(d, dir)) return;
    dirlen = strlen(dir);
    if (k) kind = k[0];
    if (a) at = atol(a);
    if (m) {
        if (!strncmp(m, "err:", 4)) { mode = 1; err = atoi(m + 4); }
        else if (!strcmp(m, "kill")) mode = 2;
        else if (!strcmp(m, "torn")) mode = 3;
        else if (!strcmp(m, "short")) mode = 4;
        else if (!strcmp(m, "eof")) mode = 5;
    }
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    ready = 1;
}

static int below(const char *p)
{
    return strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == 0);
}

static int fdbelow(int fd)
{
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, p, sizeof p - 1);
    if (n <= 0) return 0;
    p[n] = 0;
    return below(p);
}

static int pathbelow(const char *p)
{
    if (p[0] != '/') return 1;      /* the working directory is always below */
    return below(p);
}

/* 0: go on, 1: fail with err, 3: torn, 4: short, 5: end of file */
static int tick(char k, const char *what, const char *arg, long n)
{
    if (!ready || k != kind) return 0;
    pthread_mutex_lock(&mu);
    long c = ++count;
    if (logfd >= 0) {
        char b[PATH_MAX + 100];
        int z = snprintf(b, sizeof b, "%ld %s %ld %s\n", c, what, n, arg ? arg : "");
        syscall(SYS_write, logfd, b, z);
    }
    pthread_mutex_unlock(&mu);
    if (c != at) return 0;
    if (mode == 1) { errno = err; return 1; }
    if (mode == 2) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }
    return mode;
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

static int wants_write(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }

static int do_open(int d, const char *p, int fl, mode_t m)
{
    int mine = 0;
    if (ready) {
        if (p[0] == '/') mine = below(p);
        else mine = d == AT_FDCWD;
    }
    if (mine && wants_write(fl) && tick('w', "open", p, fl & O_TRUNC ? 1 : 0) == 1) return -1;
    if (mine && !wants_write(fl) && tick('r', "open", p, 0) == 1) return -1;
    int fd = syscall(SYS_openat, d, p, fl, m);
    if (fd >= 0 && fd < 65536 && ready) {
        fds[fd] = 0;
        if (mine || fdbelow(fd)) fds[fd] = 1;
    }
    return fd;
}
#define GETMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { GETMODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { GETMODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { GETMODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { GETMODE return do_open(d, p, fl | O_LARGEFILE, m); }

/* files which have ended early: every later read of them is at the end */
static unsigned char ended[65536];
static int over(int fd) { return fd >= 0 && fd < 65536 && ended[fd]; }
static int end(int fd) { if (fd >= 0 && fd < 65536) ended[fd] = 1; return 0; }
static int mine(int fd) { return ready && fd >= 0 && fd < 65536 && fds[fd]; }

int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    int r = syscall(SYS_fcntl, fd, cmd, a);
    if (r >= 0 && r < 65536 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && fd < 65536) fds[r] = fds[fd];
    return r;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl64(fd, cmd, a);
}
int close(int fd) { if (fd >= 0 && fd < 65536) fds[fd] = ended[fd] = 0; return syscall(SYS_close, fd); }

ssize_t write(int fd, const void *b, size_t n)
{
    if (mine(fd)) {
        int t = tick('w', "write", 0, n);
        if (t == 1) return -1;
        if (t == 3) { syscall(SYS_write, fd, b, n / 2); die(); }
        if (t == 4 && n > 1) n = n / 2;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    if (mine(fd)) {
        int t = tick('w', "pwrite", 0, n);
        if (t == 1) return -1;
        if (t == 3) { syscall(SYS_pwrite64, fd, b, n / 2, o); die(); }
        if (t == 4 && n > 1) n = n / 2;
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (mine(fd)) {
        int t = tick('w', "writev", 0, c);
        if (t == 1) return -1;
        if (t == 3) { syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); die(); }
        if (t == 4) return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len);
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n)
{
    if (mine(fd)) {
        int t = tick('r', "read", 0, n);
        if (t == 1) return -1;
        if (t == 5 || over(fd)) return end(fd);
        if (t == 4 && n > 1) n = n / 2;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
    if (mine(fd)) {
        int t = tick('r', "readv", 0, c);
        if (t == 1) return -1;
        if (t == 5 || over(fd)) return end(fd);
    }
    return syscall(SYS_readv, fd, v, c);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    if (mine(fd)) {
        int t = tick('r', "pread", 0, n);
        if (t == 1) return -1;
        if (t == 5 || over(fd)) return end(fd);
        if (t == 4 && n > 1) n = n / 2;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl)
{
    if (n && mine(a)) {
        int t = tick('r', "copy_file_range", 0, n > LONG_MAX ? LONG_MAX : (long)n);
        if (t == 1) return -1;
        if (t == 5 || over(a)) return end(a);
        if (t == 4 && n > 1) { struct stat s; size_t h = n; if (!fstat(a, &s) && (size_t)s.st_size < h) h = s.st_size;
                               n = h > 1 ? h / 2 : h; }
    }
    if (n && mine(b)) {
        int t = tick('w', "copy_file_range", 0, n > LONG_MAX ? LONG_MAX : (long)n);
        if (t == 1) return -1;
        if (t == 3) { struct stat s; size_t h = n; if (!fstat(a, &s) && (size_t)s.st_size < h) h = s.st_size;
                      syscall(SYS_copy_file_range, a, ao, b, bo, h / 2, fl); die(); }
    }
    return syscall(SYS_copy_file_range, a, ao, b, bo, n, fl);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
    if (mine(i)) {
        int t = tick('r', "sendfile", 0, 0);
        if (t == 1) return -1;
        if (t == 5 || over(i)) return end(i);
    }
    if (mine(o)) {
        int t = tick('w', "sendfile", 0, 0);
        if (t == 1) return -1;
        if (t == 3) { syscall(SYS_sendfile, o, i, off, n > 4096 ? 1024 : n / 2); die(); }
    }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
int ftruncate64(int fd, off64_t n)
{
    if (mine(fd) && tick('w', "ftruncate", 0, n) == 1) return -1;
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int rename(const char *a, const char *b)
{
    if (ready && (pathbelow(a) || pathbelow(b)) && tick('w', "rename", a, 0) == 1) return -1;
    return syscall(SYS_rename, a, b);
}
int unlink(const char *a)
{
    if (ready && pathbelow(a) && tick('w', "unlink", a, 0) == 1) return -1;
    return syscall(SYS_unlink, a);
}
int unlinkat(int d, const char *a, int fl)
{
    if (ready && tick('w', "unlink", a, 0) == 1) return -1;
    return syscall(SYS_unlinkat, d, a, fl);
}
int rmdir(const char *a)
{
    if (ready && pathbelow(a) && tick('w', "rmdir", a, 0) == 1) return -1;
    return syscall(SYS_rmdir, a);
}
int mkdir(const char *a, mode_t m)
{
    if (ready && pathbelow(a) && tick('w', "mkdir", a, 0) == 1) return -1;
    return syscall(SYS_mkdir, a, m);
}
static DIR *(*ropendir)(const char *);
DIR *opendir(const char *p)
{
    if (!ropendir) ropendir = dlsym(RTLD_NEXT, "opendir");
    if (ready && pathbelow(p) && tick('r', "opendir", p, 0) == 1) return 0;
    return ropendir(p);
}
static struct dirent64 *(*rreaddir)(DIR *);
struct dirent64 *readdir64(DIR *d)
{
    if (!rreaddir) rreaddir = dlsym(RTLD_NEXT, "readdir64");
    if (ready && tick('r', "readdir", 0, 0) == 1) return 0;
    return rreaddir(d);
}
