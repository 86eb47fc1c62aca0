/* Interposes the file-modifying calls of the process for one watched file: makes chosen calls fail, and
 * records the file's contents (as changed pages) around every call, from which crash images are made.
 *
 * Linked into a driver, or built as an LD_PRELOAD library: the definitions take precedence over libc's.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define PG 4096

static char watched[4096];
static FILE *logf_;
static unsigned char *shadow;
static uint64_t shadow_size, shadow_cap;

static char fault_kind;        /* 'w' writes, 's' syncs, 't' truncations, 'a' any of them */
static long fault_at, fault_seen;
static int fault_errno, fault_short, fault_sticky;
static long fault_fired;

static int is_watched(int fd)
{
    struct stat a, b;
    if (!watched[0] || fstat(fd, &a) != 0 || stat(watched, &b) != 0)
        return 0;
    return a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}

/* Appends an event with the pages that changed since the previous one. */
void iolog_event(int type)
{
    struct stat st;
    int fd;
    uint64_t off, size, n = 0;
    unsigned char page[PG];
    static unsigned char *buf;
    if (!logf_)
        return;
    fd = (int) syscall(SYS_openat, AT_FDCWD, watched, O_RDONLY, 0);
    if (fd < 0)
        return;
    fstat(fd, &st);
    size = (uint64_t) st.st_size;
    if (size > shadow_cap) {
        uint64_t cap = (size + PG) * 2;
        shadow = realloc(shadow, cap);
        memset(shadow + shadow_cap, 0, cap - shadow_cap);
        shadow_cap = cap;
    }
    fputc('E', logf_);
    fputc(type, logf_);
    fwrite(&size, 8, 1, logf_);
    for (off = 0; off < size; off += PG) {
        ssize_t got = syscall(SYS_pread64, fd, page, (size_t) (size - off < PG ? size - off : PG), off);
        if (got < 0)
            got = 0;
        memset(page + got, 0, PG - got);
        if (memcmp(page, shadow + off, PG) != 0 || off >= shadow_size) {
            memcpy(shadow + off, page, PG);
            fputc('P', logf_);
            fwrite(&off, 8, 1, logf_);
            fwrite(page, PG, 1, logf_);
        }
    }
    if (size < shadow_size)
        memset(shadow + size, 0, shadow_size - size);
    shadow_size = size;
    fflush(logf_);
    syscall(SYS_close, fd);
}

void iolog_watch(const char *path)
{
    snprintf(watched, sizeof watched, "%s", path);
}

void iolog_start(const char *log)
{
    if (logf_)
        fclose(logf_);
    logf_ = fopen(log, "ab");
    shadow_size = 0;
}

void iolog_fault(char kind, long nth, int err, int shrt, int sticky)
{
    fault_kind = kind;
    fault_at = nth;
    fault_seen = 0;
    fault_errno = err;
    fault_short = shrt;
    fault_sticky = sticky;
    fault_fired = 0;
}

long iolog_fired(void)
{
    return fault_fired;
}

static int should_fail(char kind)
{
    if (!fault_kind || (fault_kind != kind && fault_kind != 'a'))
        return 0;
    fault_seen++;
    if (fault_seen == fault_at || (fault_sticky && fault_seen > fault_at)) {
        fault_fired++;
        return 1;
    }
    return 0;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (fd > 2 && is_watched(fd)) {
        ssize_t r;
        iolog_event('b');
        if (should_fail('w')) {
            if (fault_short && n > 1) {
                r = syscall(SYS_write, fd, buf, n / 2);
                iolog_event('w');
                return r;
            }
            errno = fault_errno;
            return -1;
        }
        r = syscall(SYS_write, fd, buf, n);
        iolog_event('w');
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (fd > 2 && is_watched(fd)) {
        ssize_t r;
        iolog_event('b');
        if (should_fail('w')) {
            errno = fault_errno;
            return -1;
        }
        r = syscall(SYS_writev, fd, iov, cnt);
        iolog_event('w');
        return r;
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    if (is_watched(fd)) {
        ssize_t r;
        iolog_event('b');
        if (should_fail('w')) {
            if (fault_short && n > 1) {
                r = syscall(SYS_pwrite64, fd, buf, n / 2, off);
                iolog_event('w');
                return r;
            }
            errno = fault_errno;
            return -1;
        }
        r = syscall(SYS_pwrite64, fd, buf, n, off);
        iolog_event('w');
        return r;
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
    return pwrite64(fd, buf, n, off);
}

static int do_sync(int fd, long nr)
{
    if (is_watched(fd)) {
        int r;
        iolog_event('b');
        if (should_fail('s')) {
            errno = fault_errno;
            return -1;
        }
        r = (int) syscall(nr, fd);
        if (r == 0)
            iolog_event('s');
        return r;
    }
    return (int) syscall(nr, fd);
}

int fsync(int fd)
{
    return do_sync(fd, SYS_fsync);
}

int fdatasync(int fd)
{
    return do_sync(fd, SYS_fdatasync);
}

int msync(void *addr, size_t len, int flags)
{
    int r;
    if (watched[0]) {
        iolog_event('b');
        if ((flags & MS_SYNC) && should_fail('s')) {
            errno = fault_errno;
            return -1;
        }
    }
    r = (int) syscall(SYS_msync, addr, len, flags);
    if (r == 0 && watched[0] && (flags & MS_SYNC))
        iolog_event('s');
    return r;
}

int ftruncate64(int fd, off64_t len)
{
    if (is_watched(fd)) {
        int r;
        iolog_event('b');
        if (should_fail('t')) {
            errno = fault_errno;
            return -1;
        }
        r = (int) syscall(SYS_ftruncate, fd, len);
        iolog_event('w');
        return r;
    }
    return (int) syscall(SYS_ftruncate, fd, len);
}

int ftruncate(int fd, off_t len)
{
    return ftruncate64(fd, len);
}
