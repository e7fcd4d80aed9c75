/*
 * Preloaded into the processes of some checks: tells a controller about every
 * file system operation of the program and its libraries before it happens,
 * and waits for the answer: go on, or die here.
 *
 * Message: uint32 length, then op, path, path2, number, separated by NUL.
 * Answer: one byte, 'g' go on, 'k' die, 't' (write only) write half and die,
 * 'f' fail as on a full disk (nothing is done, but a file is closed), 'h'
 * (write only) write half and report so. 'l' sets the limit of the size of
 * files to that of the file of the operation, 'z' to 0, 'u' removes it: the
 * kernel refuses what is beyond, as on a full disk.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int chan = -1;
static char root[PATH_MAX];
static char mask[64];       /* operations not told about */
static __thread int inside;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
#define NFD 4096
static char *name_of[NFD];

void fsx_enable(int fd, const char *r, const char *without)
{
    strncpy(root, r, sizeof root - 1);
    strncpy(mask, without, sizeof mask - 1);
    chan = fd;
}

void fsx_disable(void) { chan = -1; }

static long raw_write(int fd, const void *b, size_t n)
{ return syscall(SYS_write, fd, b, n); }

static void full(int dirfd, const char *path, char *out)
{
    char base[PATH_MAX];
    if (!path) path = "";
    if (path[0] == '/') {
        snprintf(out, PATH_MAX, "%s", path);
    } else {
        base[0] = 0;
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
        } else {
            char p[64];
            snprintf(p, sizeof p, "/proc/self/fd/%d", dirfd);
            long n = syscall(SYS_readlinkat, AT_FDCWD, p, base,
                             sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        if (path[0])
            snprintf(out, PATH_MAX, "%s/%s", base, path);
        else
            snprintf(out, PATH_MAX, "%s", base);
    }
    /* drop /./ and // and a slash at the end */
    char *s = out, *d = out;
    while (*s) {
        if (s[0] == '/' && s[1] == '/') { s++; continue; }
        if (s[0] == '/' && s[1] == '.' && (s[2] == '/' || !s[2])) {
            s += 2; continue; }
        *d++ = *s++;
    }
    while (d > out + 1 && d[-1] == '/') d--;
    *d = 0;
}

static int under(const char *p)
{
    size_t n = strlen(root);
    return !strncmp(p, root, n) && (p[n] == 0 || p[n] == '/');
}

static int tell(char op, const char *a, const char *b, long num)
{
    char msg[2 * PATH_MAX + 64];
    uint32_t n;
    char ans = 'g';
    int len;
    if (chan < 0 || inside || strchr(mask, op)) return 'g';
    if (!under(a) && !(b && under(b)) &&
        (op == 'R' || op == 'S' || op == 'L'))
        return 'g';
    int keep = errno;
    inside = 1;
    pthread_mutex_lock(&lock);
    len = 4;
    msg[len++] = op;
    msg[len++] = 0;
    len += snprintf(msg + len, PATH_MAX, "%s", a) + 1;
    len += snprintf(msg + len, PATH_MAX, "%s", b ? b : "") + 1;
    len += snprintf(msg + len, 32, "%ld", num);
    n = len - 4;
    memcpy(msg, &n, 4);
    if (raw_write(chan, msg, len) != len) _exit(99);
    long r;
    do r = syscall(SYS_read, chan, &ans, 1);
    while (r < 0 && errno == EINTR);
    if (r != 1) _exit(98);
    pthread_mutex_unlock(&lock);
    inside = 0;
    errno = keep;
    if (ans == 'l' || ans == 'z' || ans == 'u') {
        /* no file may become longer than this one is, or than 0, or any */
        struct rlimit l;
        struct stat st;
        getrlimit(RLIMIT_FSIZE, &l);
        l.rlim_cur = ans == 'u' ? l.rlim_max : 0;
        if (ans == 'l' && !syscall(SYS_newfstatat, AT_FDCWD, a, &st, 0))
            l.rlim_cur = st.st_size;
        setrlimit(RLIMIT_FSIZE, &l);
        errno = keep;
    }
    if (ans == 'k') {
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        _exit(97);
    }
    return ans;
}

/* for the interpreter: operations it does for the program itself */
void fsx_note(char op, const char *path)
{
    char p[PATH_MAX];
    if (chan < 0 || inside) return;
    full(AT_FDCWD, path, p);
    if (under(p)) tell(op, p, NULL, 0);
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name)

static void opened(int fd, const char *p, int writing)
{
    if (fd < 0 || fd >= NFD || chan < 0) return;
    char *old = name_of[fd];
    name_of[fd] = writing ? strdup(p) : NULL;
    free(old);
}

#define OPEN_BODY(call, dirfd) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); \
        va_end(ap); } \
    if (chan < 0 || inside) return call; \
    char p[PATH_MAX]; \
    full(dirfd, path, p); \
    int writing = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; \
    if (!strncmp(p, "/dev/", 5)) writing = 0; \
    if (tell(writing ? 'C' : 'R', p, NULL, flags) == 'f') { \
        errno = writing ? ENOSPC : EIO; return -1; } \
    int fd = call; \
    opened(fd, p, writing); \
    return fd;

int open(const char *path, int flags, ...)
{ REAL(int, open, const char *, int, ...);
  OPEN_BODY(real(path, flags, mode), AT_FDCWD) }
int open64(const char *path, int flags, ...)
{ REAL(int, open64, const char *, int, ...);
  OPEN_BODY(real(path, flags, mode), AT_FDCWD) }
int openat(int d, const char *path, int flags, ...)
{ REAL(int, openat, int, const char *, int, ...);
  OPEN_BODY(real(d, path, flags, mode), d) }
int openat64(int d, const char *path, int flags, ...)
{ REAL(int, openat64, int, const char *, int, ...);
  OPEN_BODY(real(d, path, flags, mode), d) }

int creat(const char *path, mode_t mode)
{ return open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode)
{ return open64(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }

#define FOPEN_BODY \
    if (chan < 0 || inside) return real(path, mode); \
    char p[PATH_MAX]; \
    full(AT_FDCWD, path, p); \
    int writing = strpbrk(mode, "wa+") != NULL; \
    if (!strncmp(p, "/dev/", 5)) writing = 0; \
    if (tell(writing ? 'C' : 'R', p, NULL, 0) == 'f') { \
        errno = writing ? ENOSPC : EIO; return NULL; } \
    FILE *f = real(path, mode); \
    if (f) opened(fileno(f), p, writing); \
    return f;

FILE *fopen(const char *path, const char *mode)
{ REAL(FILE *, fopen, const char *, const char *); FOPEN_BODY }
FILE *fopen64(const char *path, const char *mode)
{ REAL(FILE *, fopen64, const char *, const char *); FOPEN_BODY }

static const char *named(int fd)
{ return fd >= 0 && fd < NFD ? name_of[fd] : NULL; }

#define WRITE_BODY(call, half) \
    const char *p; \
    if (chan >= 0 && !inside && (p = named(fd))) { \
        int a = tell('W', p, NULL, (long) n); \
        if (a == 't') { half; \
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); } \
        if (a == 'h' && n > 1) return half; \
        if (a == 'f' || a == 'h') { errno = ENOSPC; return -1; } \
    } \
    return call;

ssize_t write(int fd, const void *b, size_t n)
{ REAL(ssize_t, write, int, const void *, size_t);
  WRITE_BODY(real(fd, b, n), real(fd, b, n / 2)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
  WRITE_BODY(real(fd, b, n, o), real(fd, b, n / 2, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  WRITE_BODY(real(fd, b, n, o), real(fd, b, n / 2, o)) }
ssize_t writev(int fd, const struct iovec *v, int n)
{ REAL(ssize_t, writev, int, const struct iovec *, int);
  WRITE_BODY(real(fd, v, n), real(fd, v, n / 2)) }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    const char *p;
    if (chan >= 0 && !inside && (p = named(fileno(f)))) {
        int a = tell('W', p, NULL, (long) (s * n));
        if (a == 't') {
            real(b, 1, s * n / 2, f);
            fflush(f);
            syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        }
        if (a == 'h') return real(b, s, n / 2, f);
        if (a == 'f') { errno = ENOSPC; return 0; }
    }
    return real(b, s, n, f);
}

int ftruncate(int fd, off_t n)
{ REAL(int, ftruncate, int, off_t);
  const char *p;
  if (chan >= 0 && !inside && (p = named(fd)) &&
      tell('T', p, NULL, n) == 'f') { errno = ENOSPC; return -1; }
  return real(fd, n); }
int ftruncate64(int fd, off64_t n)
{ REAL(int, ftruncate64, int, off64_t);
  const char *p;
  if (chan >= 0 && !inside && (p = named(fd)) &&
      tell('T', p, NULL, n) == 'f') { errno = ENOSPC; return -1; }
  return real(fd, n); }

int close(int fd)
{
    REAL(int, close, int);
    int a = 'g';
    if (chan >= 0 && !inside && named(fd)) {
        a = tell('X', named(fd), NULL, 0);
        char *p = name_of[fd];
        name_of[fd] = NULL;
        free(p);
    }
    int r = real(fd);
    if (a == 'f') { errno = ENOSPC; return -1; }
    return r;
}
int fclose(FILE *f)
{
    REAL(int, fclose, FILE *);
    int fd = f ? fileno(f) : -1;
    int a = 'g';
    if (chan >= 0 && !inside && named(fd)) {
        a = tell('X', named(fd), NULL, 0);
        char *p = name_of[fd];
        name_of[fd] = NULL;
        free(p);
    }
    int r = real(f);
    if (a == 'f') { errno = ENOSPC; return EOF; }
    return r;
}

#define ONE(op, dirfd) \
    if (chan >= 0 && !inside) { \
        char p[PATH_MAX]; full(dirfd, path, p); \
        if (tell(op, p, NULL, 0) == 'f') { \
            errno = strchr("UDA", op) ? EIO : ENOSPC; return FAILED; } }
#define FAILED -1

int unlink(const char *path)
{ REAL(int, unlink, const char *); ONE('U', AT_FDCWD); return real(path); }
int remove(const char *path)
{ REAL(int, remove, const char *); ONE('U', AT_FDCWD); return real(path); }
int unlinkat(int d, const char *path, int fl)
{ REAL(int, unlinkat, int, const char *, int);
  ONE(fl & AT_REMOVEDIR ? 'D' : 'U', d); return real(d, path, fl); }
int rmdir(const char *path)
{ REAL(int, rmdir, const char *); ONE('D', AT_FDCWD); return real(path); }
int mkdir(const char *path, mode_t m)
{ REAL(int, mkdir, const char *, mode_t); ONE('M', AT_FDCWD);
  return real(path, m); }
int mkdirat(int d, const char *path, mode_t m)
{ REAL(int, mkdirat, int, const char *, mode_t); ONE('M', d);
  return real(d, path, m); }
int truncate(const char *path, off_t n)
{ REAL(int, truncate, const char *, off_t); ONE('T', AT_FDCWD);
  return real(path, n); }
int truncate64(const char *path, off64_t n)
{ REAL(int, truncate64, const char *, off64_t); ONE('T', AT_FDCWD);
  return real(path, n); }
int chmod(const char *path, mode_t m)
{ REAL(int, chmod, const char *, mode_t); ONE('A', AT_FDCWD);
  return real(path, m); }
int fchmodat(int d, const char *path, mode_t m, int fl)
{ REAL(int, fchmodat, int, const char *, mode_t, int); ONE('A', d);
  return real(d, path, m, fl); }

#define TWO(d1, d2) \
    if (chan >= 0 && !inside) { \
        char p[PATH_MAX], q[PATH_MAX]; full(d1, a, p); full(d2, b, q); \
        if (tell('N', p, q, 0) == 'f') { errno = ENOSPC; return -1; } }

int rename(const char *a, const char *b)
{ REAL(int, rename, const char *, const char *); TWO(AT_FDCWD, AT_FDCWD);
  return real(a, b); }
int renameat(int d, const char *a, int e, const char *b)
{ REAL(int, renameat, int, const char *, int, const char *); TWO(d, e);
  return real(d, a, e, b); }
int link(const char *a, const char *b)
{ REAL(int, link, const char *, const char *); TWO(AT_FDCWD, AT_FDCWD);
  return real(a, b); }
int symlink(const char *a, const char *b)
{ REAL(int, symlink, const char *, const char *); TWO(AT_FDCWD, AT_FDCWD);
  return real(a, b); }

#undef FAILED
#define FAILED NULL
DIR *opendir(const char *path)
{ REAL(DIR *, opendir, const char *); ONE('L', AT_FDCWD);
  return real(path); }

#undef FAILED
#define FAILED -1
int stat(const char *path, struct stat *s)
{ REAL(int, stat, const char *, struct stat *); ONE('S', AT_FDCWD);
  return real(path, s); }
int stat64(const char *path, struct stat64 *s)
{ REAL(int, stat64, const char *, struct stat64 *); ONE('S', AT_FDCWD);
  return real(path, s); }
int lstat(const char *path, struct stat *s)
{ REAL(int, lstat, const char *, struct stat *); ONE('S', AT_FDCWD);
  return real(path, s); }
int lstat64(const char *path, struct stat64 *s)
{ REAL(int, lstat64, const char *, struct stat64 *); ONE('S', AT_FDCWD);
  return real(path, s); }
int fstatat(int d, const char *path, struct stat *s, int fl)
{ REAL(int, fstatat, int, const char *, struct stat *, int); ONE('S', d);
  return real(d, path, s, fl); }
int fstatat64(int d, const char *path, struct stat64 *s, int fl)
{ REAL(int, fstatat64, int, const char *, struct stat64 *, int);
  ONE('S', d); return real(d, path, s, fl); }
int access(const char *path, int m)
{ REAL(int, access, const char *, int); ONE('S', AT_FDCWD);
  return real(path, m); }
