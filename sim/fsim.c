/* Disk simulator: interposes the libc calls through which files are changed.
 * Only files below an armed directory are concerned; everything else passes through.
 * Every matching call gets a sequence number; a fault table says what happens at a number.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { F_NONE = 0, F_ENOSPC = 1, F_EIO = 2, F_CRASH = 3, F_TORN = 4, F_SHORT = 5, F_EINTR = 6, F_FULL = 7, F_CRASH_AFTER = 8, F_EACCES = 9 };
#define MAXF 256
#define MAXL 65536
static char dir[1024];
static long nop, nfault;
static int full;
static long f_at[MAXF];
static int f_kind[MAXF], f_n;
static long fired[16];
static char ops[MAXL];

void fsim_arm(const char *d) { strncpy(dir, d, sizeof dir - 1); nop = 0; f_n = 0; nfault = 0; full = 0; memset(fired, 0, sizeof fired); memset(ops, 0, sizeof ops); }
void fsim_fault(long at, int kind) { if (f_n < MAXF) { f_at[f_n] = at; f_kind[f_n++] = kind; } }
void fsim_heal(void) { f_n = 0; full = 0; }
void fsim_disarm(void) { dir[0] = 0; f_n = 0; full = 0; }
long fsim_count(void) { return nop; }
long fsim_fired(int k) { return fired[k & 15]; }
const char *fsim_ops(void) { return ops; }

static int inpath(const char *p)
{
    char b[2048];
    if (!dir[0] || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(b, 1000)) return 0;
        size_t n = strlen(b);
        snprintf(b + n, sizeof b - n, "/%s", p);
        p = b;
    }
    return strncmp(p, dir, strlen(dir)) == 0;
}
static int infd(int fd)
{
    char p[64], b[1100];
    if (!dir[0]) return 0;
    int e = errno;
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(p, b, sizeof b - 1);
    errno = e;
    if (r < 0) return 0;
    b[r] = 0;
    return strncmp(b, dir, strlen(dir)) == 0;
}
/* what happens to this call */
static int next(char op)
{
    long i = nop++;
    int k = F_NONE;
    if (i < MAXL - 1) ops[i] = op;
    for (int j = 0; j < f_n; j++)
        if (f_at[j] == i) k = f_kind[j];
    if (k == F_FULL) full = 1;
    if (k == F_NONE && full && (op == 'W' || op == 'O' || op == 'T')) k = F_FULL;
    if (k != F_NONE) { fired[k & 15]++; nfault++; }
    if (k == F_CRASH) _exit(77);
    if (k == F_FULL) return F_ENOSPC;
    return k;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (infd(fd)) {
        int k = next('W');
        if (k == F_ENOSPC) { errno = ENOSPC; return -1; }
        if (k == F_EIO) { errno = EIO; return -1; }
        if (k == F_EINTR) { errno = EINTR; return -1; }
        if (k == F_TORN) { if (real(fd, b, n / 2, o)) {} _exit(77); }
        if (k == F_SHORT && n > 1) return real(fd, b, n / 2, o);
        ssize_t r = real(fd, b, n, o);
        if (k == F_CRASH_AFTER) _exit(77);
        return r;
    }
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (infd(fd)) {
        int k = next('W');
        if (k == F_ENOSPC) { errno = ENOSPC; return -1; }
        if (k == F_EIO) { errno = EIO; return -1; }
        if (k == F_EINTR) { errno = EINTR; return -1; }
        if (k == F_TORN) { if (real(fd, b, n / 2)) {} _exit(77); }
        if (k == F_SHORT && n > 1) return real(fd, b, n / 2);
        ssize_t r = real(fd, b, n);
        if (k == F_CRASH_AFTER) _exit(77);
        return r;
    }
    return real(fd, b, n);
}
/* calls that succeed or fail as a whole */
#define SIMPLE(match, op, call) \
    if (match) { \
        int k = next(op); \
        if (k == F_ENOSPC) { errno = ENOSPC; return -1; } \
        if (k == F_EIO) { errno = EIO; return -1; } \
        if (k == F_EACCES) { errno = EACCES; return -1; } \
        if (k == F_TORN) _exit(77); \
        int r = call; \
        if (k == F_CRASH_AFTER) _exit(77); \
        return r; \
    } \
    return call

int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", int, off64_t); SIMPLE(infd(fd), 'T', real(fd, l)); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); SIMPLE(inpath(b), 'R', real(a, b)); }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); SIMPLE(inpath(b), 'R', real(d1, a, d2, b)); }
int unlink(const char *a) { REAL(int, "unlink", const char *); SIMPLE(inpath(a), 'U', real(a)); }
int fsync(int fd) { REAL(int, "fsync", int); SIMPLE(infd(fd), 'S', real(fd)); }

#define WR(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *p, int fl, ...) { MODE; REAL(int, "open64", const char *, int, mode_t); SIMPLE(WR(fl) && inpath(p), 'O', real(p, fl, m)); }
int open(const char *p, int fl, ...) { MODE; REAL(int, "open", const char *, int, mode_t); SIMPLE(WR(fl) && inpath(p), 'O', real(p, fl, m)); }
int openat64(int d, const char *p, int fl, ...) { MODE; REAL(int, "openat64", int, const char *, int, mode_t); SIMPLE(WR(fl) && inpath(p), 'O', real(d, p, fl, m)); }
int openat(int d, const char *p, int fl, ...) { MODE; REAL(int, "openat", int, const char *, int, mode_t); SIMPLE(WR(fl) && inpath(p), 'O', real(d, p, fl, m)); }
int close(int fd)
{
    REAL(int, "close", int);
    int fl;
    if (dir[0] && (fl = fcntl(fd, F_GETFL)) >= 0 && WR(fl & O_ACCMODE) && infd(fd)) {
        int k = next('C');
        int r = real(fd);
        if (k == F_EIO || k == F_ENOSPC) { errno = k == F_EIO ? EIO : ENOSPC; return -1; }
        if (k == F_CRASH_AFTER || k == F_TORN) _exit(77);
        return r;
    }
    return real(fd);
}
