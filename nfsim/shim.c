/* Positioned reads, writes and truncations made by the HDF5 library, as events of the simulator.
   The callback returns 0 to go on, an errno to fail with, or -(n + 1) to transfer only n bytes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/types.h>
#include <unistd.h>

typedef int (*nf_cb_t)(int kind, int fd, size_t n, long off);
nf_cb_t nf_cb = 0;
static __thread int inside = 0;

static int call(int kind, int fd, size_t n, long off)
{
    int r;
    if (!nf_cb || inside) return 0;
    inside = 1;
    r = nf_cb(kind, fd, n, off);
    inside = 0;
    return r;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define WRITER(name, off_type) \
ssize_t name(int fd, const void *buf, size_t n, off_type off) \
{ \
    REAL(name); \
    int r = call(1, fd, n, (long)off); \
    ssize_t k; \
    if (r > 0) { errno = r; return -1; } \
    if (r < 0) n = (size_t)(-r - 1); \
    k = real(fd, buf, n, off); \
    if (k >= 0) { int e = errno; call(2, fd, (size_t)k, (long)off); errno = e; } \
    return k; \
}
WRITER(pwrite, off_t)
WRITER(pwrite64, off64_t)

#define READER(name, off_type) \
ssize_t name(int fd, void *buf, size_t n, off_type off) \
{ \
    REAL(name); \
    int r = call(3, fd, n, (long)off); \
    if (r > 0) { errno = r; return -1; } \
    if (r < 0) n = (size_t)(-r - 1); \
    return real(fd, buf, n, off); \
}
READER(pread, off_t)
READER(pread64, off64_t)

#define TRUNC(name, off_type) \
int name(int fd, off_type len) \
{ \
    REAL(name); \
    int r = call(4, fd, 0, (long)len), k; \
    if (r > 0) { errno = r; return -1; } \
    k = real(fd, len); \
    if (k == 0) call(5, fd, 0, (long)len); \
    return k; \
}
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)
