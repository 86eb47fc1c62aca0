/* Linked into ftwin: makes file system calls fail for chosen files, and logs calls that would change the file system.
 *
 * FSFAULT: lines "KIND A B PATH"
 *   open ERRNO 0 PATH          opening fails                    stat ERRNO 0 PATH     stat and lstat fail
 *   read ERRNO OFFSET PATH     reads end at OFFSET, then fail   mmap ERRNO 0 PATH     mapping fails (PATH * : of any file)
 *   opendir ERRNO 0 PATH       opening the directory fails      readdir ERRNO N PATH  fails after N entries
 *   short N 0 *                reads return at most N bytes     eintr K 0 *           every K-th read is interrupted first
 *   dtype 0 0 *                directory entries have no type   pthread ERRNO N *     the N-th thread cannot be created
 *   devices 0 0 *              every directory seems to be a file system of its own, all with the same inode number
 *   sparse-map 0 0 *           maps of more than 512 MiB are made of the shared page of zeros plus the parts of the file that are not holes
 *   once-open ERRNO N *        the N-th opening for reading of a watched file fails
 *   once-read ERRNO N *        the N-th read from a watched file fails
 *   once-mmap ERRNO N *        the N-th mapping of a watched file fails
 *   once-write ERRNO N *       the N-th write to or truncation of a regular file fails
 *   short-write N 0 *          writes to regular files store at most N bytes
 *   watch 0 0 DIR              what "watched" means: regular files of this device below... (any file on it)
 * FSLOG: file that gets one line per modifying call.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

struct rule
{
    char kind[16];
    long a, b;
    int any;
    dev_t dev;
    ino_t ino;
    long count;
};

static struct rule rules[64];
static int nrules, ready, logfd = -1;

static void init(void)
{
    const char *s = getenv("FSFAULT"), *l = getenv("FSLOG");
    ready = 1;
    if (l)
        logfd = (int) syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0666);
    while (s && *s && nrules < 64) {
        struct rule *r = &rules[nrules];
        int n = 0;
        const char *e = strchrnul(s, '\n');
        if (sscanf(s, "%15s %ld %ld %n", r->kind, &r->a, &r->b, &n) >= 3 && n) {
            char path[8192];
            struct stat st;
            size_t k = (size_t) (e - s - n);
            if (k >= sizeof(path))
                k = sizeof(path) - 1;
            memcpy(path, s + n, k);
            path[k] = 0;
            r->any = !strcmp(path, "*");
            if (!r->any) {
                if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) == 0) {
                    r->dev = st.st_dev;
                    r->ino = st.st_ino;
                    nrules++;
                }
            }
            else
                nrules++;
        }
        s = *e ? e + 1 : e;
    }
}

static struct rule *match_st(const char *kind, const struct stat *st)
{
    int i;
    for (i = 0; i < nrules; i++)
        if (!strcmp(rules[i].kind, kind) && (rules[i].any || (st && st->st_dev == rules[i].dev && st->st_ino == rules[i].ino)))
            return &rules[i];
    return NULL;
}

static struct rule *match_at(const char *kind, int dfd, const char *path)
{
    struct stat st;
    if (!ready)
        init();
    if (!nrules || !path)
        return NULL;
    if (syscall(SYS_newfstatat, dfd, path, &st, 0) != 0)
        return match_st(kind, NULL);
    return match_st(kind, &st);
}

static struct rule *match_fd(const char *kind, int fd)
{
    struct stat st;
    if (!ready)
        init();
    if (!nrules)
        return NULL;
    if (syscall(SYS_fstat, fd, &st) != 0)
        return NULL;
    return match_st(kind, &st);
}

static int watched(int fd)
{
    struct stat st;
    int i;
    if (syscall(SYS_fstat, fd, &st) != 0 || !S_ISREG(st.st_mode))
        return 0;
    for (i = 0; i < nrules; i++)
        if (!strcmp(rules[i].kind, "watch"))
            return rules[i].dev == st.st_dev;
    return 0;
}

static void logmod(const char *fn, int dfd, const char *path)
{
    char buf[9000], dir[4200] = "";
    if (!ready)
        init();
    if (logfd < 0)
        return;
    if (path && path[0] != '/') {
        if (dfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, dir, 4096) < 0)
                dir[0] = 0;
        }
        else {
            char p[64];
            long n;
            snprintf(p, sizeof(p), "/proc/self/fd/%d", dfd);
            n = syscall(SYS_readlinkat, AT_FDCWD, p, dir, 4096);
            dir[n > 0 ? n : 0] = 0;
        }
        strcat(dir, "/");
    }
    snprintf(buf, sizeof(buf), "%s %s%s\n", fn, dir, path ? path : "");
    syscall(SYS_write, logfd, buf, strlen(buf));
}

static void logfdmod(const char *fn, int fd)
{
    char p[64], t[4200];
    long n;
    snprintf(p, sizeof(p), "/proc/self/fd/%d", fd);
    n = syscall(SYS_readlinkat, AT_FDCWD, p, t, 4096);
    t[n > 0 ? n : 0] = 0;
    logmod(fn, AT_FDCWD, t);
}

/* ---- opening */
static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
    struct rule *r;
    int fd;
    if (!ready)
        init();
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))
        logmod("open", dfd, path);
    if ((r = match_at((flags & O_DIRECTORY) ? "opendir" : "open", dfd, path)) != NULL) {
        errno = (int) r->a;
        return -1;
    }
    fd = (int) syscall(SYS_openat, dfd, path, flags, mode);
    if (fd >= 0 && (r = match_st("once-open", NULL)) != NULL && watched(fd)) {
        if (__sync_add_and_fetch(&r->count, 1) == r->b) {
            syscall(SYS_close, fd);
            errno = (int) r->a;
            return -1;
        }
    }
    return fd;
}

#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(AT_FDCWD, path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(AT_FDCWD, path, flags, mode);
}

int openat(int d, const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(d, path, flags, mode);
}

int openat64(int d, const char *path, int flags, ...)
{
    MODE(flags)
    return do_open(d, path, flags, mode);
}

int creat(const char *path, mode_t mode)
{
    return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

/* stdio opens files inside libc: go through the same rules, then hand over the descriptor */
FILE *fopen(const char *path, const char *m)
{
    int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY, fd;
    if (m[0] == 'w')
        fl |= O_CREAT | O_TRUNC;
    if (m[0] == 'a')
        fl |= O_CREAT | O_APPEND;
    fd = do_open(AT_FDCWD, path, fl, 0666);
    return fd < 0 ? NULL : fdopen(fd, m);
}

FILE *fopen64(const char *path, const char *m)
{
    return fopen(path, m);
}

/* ---- reading */
static ssize_t do_read(int fd, void *buf, size_t n, off_t off, int positioned)
{
    struct rule *r;
    if (!ready)
        init();
    if (nrules) {
        if ((r = match_st("eintr", NULL)) != NULL && watched(fd) && __sync_add_and_fetch(&r->count, 1) % r->a == 0) {
            errno = EINTR;
            return -1;
        }
        if ((r = match_st("once-read", NULL)) != NULL && watched(fd) && __sync_add_and_fetch(&r->count, 1) == r->b) {
            errno = (int) r->a;
            return -1;
        }
        if ((r = match_fd("read", fd)) != NULL) {
            off_t at = positioned ? off : (off_t) syscall(SYS_lseek, fd, 0, SEEK_CUR);
            if (at >= r->b) {
                errno = (int) r->a;
                return -1;
            }
            if (at + (off_t) n > r->b)
                n = (size_t) (r->b - at);
        }
        if ((r = match_st("short", NULL)) != NULL && watched(fd) && n > (size_t) r->a)
            n = (size_t) r->a;
    }
    return positioned ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
}

ssize_t read(int fd, void *buf, size_t n)
{
    return do_read(fd, buf, n, 0, 0);
}

ssize_t pread(int fd, void *buf, size_t n, off_t off)
{
    return do_read(fd, buf, n, off, 1);
}

ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
{
    return do_read(fd, buf, n, off, 1);
}

/* The same bytes as the file, without the memory that mapping the holes of a file on tmpfs takes. */
static void *sparse_map(size_t n, int fd, off_t off)
{
    char *m = (char *) syscall(SYS_mmap, NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    off_t was = (off_t) syscall(SYS_lseek, fd, 0, SEEK_CUR), at = off;
    if (m == MAP_FAILED)
        return m;
    while (at < off + (off_t) n && (at = (off_t) syscall(SYS_lseek, fd, at, SEEK_DATA)) >= 0) {
        off_t end = (off_t) syscall(SYS_lseek, fd, at, SEEK_HOLE);
        if (end > off + (off_t) n)
            end = off + (off_t) n;
        while (at < end) {
            long k = syscall(SYS_pread64, fd, m + (at - off), (size_t) (end - at), at);
            if (k <= 0)
                break;
            at += k;
        }
        if (at < end)
            break;
    }
    syscall(SYS_lseek, fd, was, SEEK_SET);
    return m;
}

static void *do_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    struct rule *r;
    if (fd >= 0 && !(flags & MAP_ANONYMOUS)) {
        if (!ready)
            init();
        if (nrules && ((r = match_fd("mmap", fd)) != NULL) && (!r->any || watched(fd))) {
            errno = (int) r->a;
            return MAP_FAILED;
        }
        if (nrules && (r = match_st("once-mmap", NULL)) != NULL && watched(fd) && __sync_add_and_fetch(&r->count, 1) == r->b) {
            errno = (int) r->a;
            return MAP_FAILED;
        }
        if (nrules && n > (size_t) 1 << 29 && !a && !(prot & PROT_WRITE) && match_st("sparse-map", NULL) && watched(fd))
            return sparse_map(n, fd, off);
    }
    return (void *) syscall(SYS_mmap, a, n, prot, flags, fd, off);
}

#ifndef FSFAULT_NO_MMAP
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    return do_mmap(a, n, prot, flags, fd, off);
}

void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t off)
{
    return do_mmap(a, n, prot, flags, fd, off);
}
#endif

/* ---- status */
static int own_device(int rc, struct stat *st)
{
    if (rc == 0 && S_ISDIR(st->st_mode) && match_st("devices", st)) {
        st->st_dev = (dev_t) (st->st_ino + 1000);
        st->st_ino = 2;
    }
    return rc;
}

int fstat(int fd, struct stat *st)
{
    return own_device((int) syscall(SYS_fstat, fd, st), st);
}

int fstat64(int fd, struct stat64 *st)
{
    return own_device((int) syscall(SYS_fstat, fd, st), (struct stat *) st);
}

static int do_stat(int dfd, const char *path, struct stat *st, int flags)
{
    struct rule *r = match_at("stat", dfd, path);
    if (r) {
        errno = (int) r->a;
        return -1;
    }
    return own_device((int) syscall(SYS_newfstatat, dfd, path, st, flags), st);
}

int stat(const char *p, struct stat *st)
{
    return do_stat(AT_FDCWD, p, st, 0);
}

int stat64(const char *p, struct stat64 *st)
{
    return do_stat(AT_FDCWD, p, (struct stat *) st, 0);
}

int lstat(const char *p, struct stat *st)
{
    return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}

int lstat64(const char *p, struct stat64 *st)
{
    return do_stat(AT_FDCWD, p, (struct stat *) st, AT_SYMLINK_NOFOLLOW);
}

int fstatat(int d, const char *p, struct stat *st, int f)
{
    return do_stat(d, p, st, f);
}

int fstatat64(int d, const char *p, struct stat64 *st, int f)
{
    return do_stat(d, p, (struct stat *) st, f);
}

/* ---- directories */
DIR *opendir(const char *path)
{
    static DIR *(*real)(const char *);
    struct rule *r = match_at("opendir", AT_FDCWD, path);
    if (r) {
        errno = (int) r->a;
        return NULL;
    }
    if (!real)
        real = dlsym(RTLD_NEXT, "opendir");
    return real(path);
}

struct dirent *readdir(DIR *d)
{
    static struct dirent *(*real)(DIR *);
    struct dirent *e;
    struct rule *r;
    if (!real)
        real = dlsym(RTLD_NEXT, "readdir");
    r = match_fd("readdir", dirfd(d));
    if (r && r->count++ >= r->b) {
        errno = (int) r->a;
        return NULL;
    }
    e = real(d);
    if (e && nrules && match_st("dtype", NULL))
        e->d_type = DT_UNKNOWN;
    return e;
}

struct dirent64 *readdir64(DIR *d)
{
    return (struct dirent64 *) readdir(d);
}

/* ---- threads */
#ifndef FSFAULT_NO_THREADS
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    struct rule *r;
    if (!ready)
        init();
    if ((r = match_st("pthread", NULL)) != NULL && ++r->count == r->b)
        return (int) r->a;
    if (!real)
        real = dlsym(RTLD_NEXT, "pthread_create");
    return real(t, a, fn, arg);
}
#endif

/* ---- modifying calls: logged, then done */
#define P1(fn, nr, ...) 
int unlink(const char *p) { logmod("unlink", AT_FDCWD, p); return (int) syscall(SYS_unlink, p); }
int unlinkat(int d, const char *p, int f) { logmod("unlinkat", d, p); return (int) syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { logmod("rmdir", AT_FDCWD, p); return (int) syscall(SYS_rmdir, p); }
int remove(const char *p) { int r; logmod("remove", AT_FDCWD, p); r = (int) syscall(SYS_unlink, p); return r && errno == EISDIR ? (int) syscall(SYS_rmdir, p) : r; }
int rename(const char *p, const char *q) { logmod("rename", AT_FDCWD, p); logmod("rename-to", AT_FDCWD, q); return (int) syscall(SYS_rename, p, q); }
int renameat(int d, const char *p, int e, const char *q) { logmod("rename", d, p); logmod("rename-to", e, q); return (int) syscall(SYS_renameat, d, p, e, q); }
int link(const char *p, const char *q) { logmod("link", AT_FDCWD, q); return (int) syscall(SYS_link, p, q); }
int linkat(int d, const char *p, int e, const char *q, int f) { logmod("link", e, q); return (int) syscall(SYS_linkat, d, p, e, q, f); }
int symlink(const char *p, const char *q) { logmod("symlink", AT_FDCWD, q); return (int) syscall(SYS_symlink, p, q); }
int mkdir(const char *p, mode_t m) { logmod("mkdir", AT_FDCWD, p); return (int) syscall(SYS_mkdir, p, m); }
int chmod(const char *p, mode_t m) { logmod("chmod", AT_FDCWD, p); return (int) syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { logfdmod("fchmod", fd); return (int) syscall(SYS_fchmod, fd, m); }
int chown(const char *p, uid_t u, gid_t g) { logmod("chown", AT_FDCWD, p); return (int) syscall(SYS_chown, p, u, g); }
int truncate(const char *p, off_t n) { logmod("truncate", AT_FDCWD, p); return (int) syscall(SYS_truncate, p, n); }

/* ---- writing */
static struct rule *match_write(const char *kind, int fd)
{
    struct stat st;
    struct rule *r;
    if (!ready)
        init();
    if (!nrules || fd == logfd || (r = match_st(kind, NULL)) == NULL)
        return NULL;
    return syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode) ? r : NULL;
}

static int write_fails(int fd)
{
    struct rule *r = match_write("from-write", fd);
    if (r && __sync_add_and_fetch(&r->count, 1) >= r->b) {
        errno = (int) r->a;
        return 1;
    }
    r = match_write("once-write", fd);
    if (!r || __sync_add_and_fetch(&r->count, 1) != r->b)
        return 0;
    errno = (int) r->a;
    return 1;
}

ssize_t write(int fd, const void *b, size_t n)
{
    struct rule *r;
    if (write_fails(fd))
        return -1;
    if ((r = match_write("short-write", fd)) != NULL && n > (size_t) r->a)
        n = (size_t) r->a;
    return syscall(SYS_write, fd, b, n);
}

ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    struct rule *r;
    if (write_fails(fd))
        return -1;
    if ((r = match_write("short-write", fd)) != NULL && n > (size_t) r->a)
        n = (size_t) r->a;
    return syscall(SYS_pwrite64, fd, b, n, o);
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }

int ftruncate(int fd, off_t n) { if (write_fails(fd)) return -1; logfdmod("ftruncate", fd); return (int) syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { logmod("utimensat", d, p); return (int) syscall(SYS_utimensat, d, p, t, f); }
int mkstemp(char *t)
{
    static int (*real)(char *);
    int fd;
    if (!real)
        real = dlsym(RTLD_NEXT, "mkstemp");
    fd = real(t);
    logmod("mkstemp", AT_FDCWD, t);
    return fd;
}
