/* Lets the mount daemon run without a kernel: /dev/fuse is a socket the check holds, mounting does nothing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static int dev(const char *p)
{
    const char *e = getenv("VERIF_FUSE_FD");
    if (p && e && strcmp(p, "/dev/fuse") == 0)
        return dup(atoi(e));
    return -2;
}
#define OPEN(name) \
int name(const char *p, int fl, ...) \
{ \
    int r = dev(p); \
    if (r != -2) return r; \
    va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
    return f(p, fl, m); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int fl, ...) \
{ \
    int r = dev(p); \
    if (r != -2) return r; \
    va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, #name); \
    return f(d, p, fl, m); \
}
OPENAT(openat)
OPENAT(openat64)
int mount(const char *a, const char *b, const char *c, unsigned long d, const void *e) { return 0; }
int umount(const char *a) { return 0; }
int umount2(const char *a, int f) { return 0; }
