/* Runs a script of cache operations read from standard input and prints the result of each.  Paths are hexadecimal. */
#define _GNU_SOURCE
#include "napr_cache.h"
#include <apr_general.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

void iolog_watch(const char *path);
void iolog_fault(char kind, long nth, int err, int shrt, int sticky);
long iolog_fired(void);

static apr_pool_t *root_pool, *open_pool, *txn_pool;
static napr_cache_t *cache;

static const char *name(apr_status_t s)
{
    static char buf[64];
    if (s == APR_SUCCESS) return "OK";
    if (s == APR_NOTFOUND) return "NOTFOUND";
    snprintf(buf, sizeof buf, "ERR%d", (int) s);
    return buf;
}

static char *unhex(const char *s)
{
    size_t i, n = s[0] == '-' ? 0 : strlen(s) / 2;
    char *r = malloc(n + 1);
    for (i = 0; i < n; i++) {
        unsigned v;
        sscanf(s + 2 * i, "%2x", &v);
        r[i] = (char) v;
    }
    r[n] = 0;
    return r;
}

struct markers {
    char **paths;
    int n, first, step;
};

static void *marker(void *arg)
{
    struct markers *m = arg;
    int i;
    for (i = m->first; i < m->n; i += m->step) {
        char *copy = strdup(m->paths[i]);
        if (napr_cache_mark_visited(cache, copy) != APR_SUCCESS) {
            printf("mark failed\n");
            fflush(stdout);
            _exit(3);
        }
        memset(copy, 'X', strlen(copy));        /* the caller's string may go away at once */
        free(copy);
    }
    return NULL;
}

int main(void)
{
    static char line[1 << 20], a[1 << 16], b[256], c[256], d[256], e[256], f[256];
    apr_status_t s;
    pid_t holder = 0;
    int hold_in[2];
    apr_initialize();
    apr_pool_create(&root_pool, NULL);
    signal(SIGPIPE, SIG_IGN);
    while (fgets(line, sizeof line, stdin)) {
        char op[32] = "";
        a[0] = b[0] = c[0] = d[0] = e[0] = f[0] = 0;
        sscanf(line, "%31s %65535s %255s %255s %255s %255s %255s", op, a, b, c, d, e, f);
        if (!strcmp(op, "open")) {
            apr_pool_create(&open_pool, root_pool);
            s = napr_cache_open(&cache, a, open_pool);
            if (s != APR_SUCCESS)       /* the pool lives on: what was taken has to be given back all the same */
                cache = NULL;
            printf("%s\n", name(s));
        }
        else if (!strcmp(op, "close")) {
            s = napr_cache_close(cache);
            cache = NULL;
            apr_pool_destroy(open_pool);
            printf("%s\n", name(s));
        }
        else if (!strcmp(op, "bread") || !strcmp(op, "bwrite")) {
            apr_pool_create(&txn_pool, open_pool);
            printf("%s\n", name(op[1] == 'r' ? napr_cache_begin_read(cache, txn_pool) : napr_cache_begin_write(cache, txn_pool)));
        }
        else if (!strcmp(op, "eread") || !strcmp(op, "commit") || !strcmp(op, "abort")) {
            s = op[0] == 'e' ? napr_cache_end_read(cache) : op[0] == 'c' ? napr_cache_commit_write(cache) : napr_cache_abort_write(cache);
            printf("%s\n", name(s));
            if (txn_pool)
                apr_pool_destroy(txn_pool);
            txn_pool = NULL;
        }
        else if (!strcmp(op, "look")) {
            char *p = unhex(a);
            const napr_cache_entry_t *en = NULL;
            s = napr_cache_lookup_in_txn(cache, p, &en);
            if (s == APR_SUCCESS) {
                napr_cache_entry_t v;
                memcpy(&v, en, sizeof v);
                printf("OK %lld %lld %lld %llu %llu\n", (long long) v.mtime, (long long) v.ctime, (long long) v.size,
                       (unsigned long long) v.hash.low64, (unsigned long long) v.hash.high64);
            }
            else
                printf("%s\n", name(s));
            free(p);
        }
        else if (!strcmp(op, "up")) {   /* up path mtime ctime size low high */
            char *p = unhex(a);
            napr_cache_entry_t *v = malloc(sizeof *v);
            v->mtime = atoll(b);
            v->ctime = atoll(c);
            v->size = atoll(d);
            v->hash.low64 = strtoull(e, NULL, 10);
            v->hash.high64 = strtoull(f, NULL, 10);
            printf("%s\n", name(napr_cache_upsert_in_txn(cache, p, v)));
            memset(p, 'X', strlen(p));
            free(p);
            memset(v, 0xEE, sizeof *v);
            free(v);
        }
        else if (!strcmp(op, "mark")) {
            char *p = unhex(a);
            printf("%s\n", name(napr_cache_mark_visited(cache, p)));
            memset(p, 'X', strlen(p));
            free(p);
        }
        else if (!strcmp(op, "markmt")) {       /* markmt threads path path ... */
            char *tok = strtok(line, " \n");
            char *paths[4096];
            struct markers m[16];
            pthread_t th[16];
            int n = 0, t = atoi(a), i;
            strtok(NULL, " \n");
            while ((tok = strtok(NULL, " \n")) && n < 4096)
                paths[n++] = unhex(tok);
            for (i = 0; i < t; i++) {
                m[i] = (struct markers) { paths, n, i, t };
                pthread_create(&th[i], NULL, marker, &m[i]);
            }
            for (i = 0; i < t; i++)
                pthread_join(th[i], NULL);
            for (i = 0; i < n; i++)
                free(paths[i]);
            printf("OK\n");
        }
        else if (!strcmp(op, "sweep"))
            printf("%s\n", name(napr_cache_sweep(cache)));
        else if (!strcmp(op, "probe")) {        /* another process tries to open the cache */
            int st;
            pid_t pid;
            fflush(stdout);
            pid = fork();
            if (pid == 0) {
                execl("/proc/self/exe", "cachedrv-probe", a, (char *) NULL);
                _exit(120);
            }
            waitpid(pid, &st, 0);
            printf("%s\n", WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "OK" : WEXITSTATUS(st) == 1 ? "REFUSED" : "?") : "DIED");
        }
        else if (!strcmp(op, "hold")) { /* another process opens the cache and keeps it */
            int ack[2];
            char ch = 0;
            fflush(stdout);
            if (pipe(hold_in) || pipe(ack))
                return 9;
            holder = fork();
            if (holder == 0) {
                dup2(hold_in[0], 0);
                dup2(ack[1], 1);
                close(hold_in[0]);
                close(hold_in[1]);
                close(ack[0]);
                close(ack[1]);
                execl("/proc/self/exe", "cachedrv-hold", a, b, (char *) NULL);
                _exit(120);
            }
            close(hold_in[0]);
            close(ack[1]);
            if (read(ack[0], &ch, 1) != 1)
                ch = '!';
            close(ack[0]);
            printf("%s\n", ch == 'O' ? "OK" : ch == 'R' ? "REFUSED" : "DIED");
        }
        else if (!strcmp(op, "release")) {      /* release kill|close */
            int st;
            if (a[0] == 'k')
                kill(holder, SIGKILL);
            close(hold_in[1]);
            waitpid(holder, &st, 0);
            printf("OK\n");
        }
        else if (!strcmp(op, "fault")) {
            iolog_watch(a);
            iolog_fault(b[0], atol(c), atoi(d), 0, 1);
            printf("OK\n");
        }
        else if (!strcmp(op, "spoil")) {        /* spoil path size: something that is no database takes the place of the file */
            char good[70000];
            snprintf(good, sizeof good, "%s.good", a);
            rename(a, good);
            if (atol(b) < 0)
                mkdir(a, 0700);
            else {
                FILE *fh = fopen(a, "w");
                long i;
                for (i = 0; fh && i < atol(b); i++)
                    fputc(0x5A, fh);
                if (fh)
                    fclose(fh);
            }
            printf("OK\n");
        }
        else if (!strcmp(op, "unspoil")) {
            char good[70000];
            snprintf(good, sizeof good, "%s.good", a);
            remove(a);
            rename(good, a);
            printf("OK\n");
        }
        else if (!strcmp(op, "nofault")) {
            printf("%ld\n", iolog_fired());
            iolog_fault(0, 0, 0, 0, 0);
        }
        else
            printf("?\n");
    }
    fflush(stdout);
    _exit(0);
}

/* ---- several processes racing for the cache: cachedrv-race PATH PROCESSES ROUNDS SEED ---- */

static volatile uint32_t perturb;       /* state of the generator of delays; 0: none */

static void nap(void)
{
    uint32_t x = perturb;
    if (!x)
        return;
    x ^= x << 13;
    x ^= x >> 17;
    x ^= x << 5;
    perturb = x;
    if (x % 3 == 0)
        usleep(x >> 8 & 255);
}

int fcntl(int fd, int cmd, ...)
{
    static int (*real)(int, int, void *);
    va_list ap;
    void *arg;
    va_start(ap, cmd);
    arg = va_arg(ap, void *);
    va_end(ap);
    if (!real)
        real = (int (*)(int, int, void *)) dlsym(RTLD_NEXT, "fcntl64");
    if (cmd == F_SETLK || cmd == F_SETLKW)
        nap();
    return real(fd, cmd, arg);
}

int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    void *arg;
    va_start(ap, cmd);
    arg = va_arg(ap, void *);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}

int flock(int fd, int op)
{
    static int (*real)(int, int);
    if (!real)
        real = (int (*)(int, int)) dlsym(RTLD_NEXT, "flock");
    nap();
    return real(fd, op);
}

int close(int fd)
{
    static int (*real)(int);
    int r;
    if (!real)
        real = (int (*)(int)) dlsym(RTLD_NEXT, "close");
    nap();
    r = real(fd);
    nap();
    return r;
}

struct shared {
    volatile int inside, go;
    volatile long entered, written;
    char why[200];
};

static void racer(const char *path, int rounds, uint32_t seed, struct shared *sh)
{
    apr_pool_t *root, *p;
    int i;
    apr_initialize();
    apr_pool_create(&root, NULL);
    while (!sh->go);
    perturb = seed | 1;
    for (i = 0; i < rounds; i++) {
        napr_cache_t *k;
        const napr_cache_entry_t *en;
        napr_cache_entry_t e;
        apr_status_t s;
        long n;
        apr_pool_create(&p, root);
        s = napr_cache_open(&k, path, p);
        if (s != APR_SUCCESS) {
            apr_pool_destroy(p);
            continue;
        }
        if (__sync_add_and_fetch(&sh->inside, 1) != 1) {
            snprintf(sh->why, sizeof sh->why, "two processes have the cache open at once");
            _exit(1);
        }
        __sync_add_and_fetch(&sh->entered, 1);
        memset(&e, 0, sizeof e);
        if (napr_cache_begin_write(k, p) != APR_SUCCESS) {
            snprintf(sh->why, sizeof sh->why, "no write transaction begins");
            _exit(1);
        }
        n = napr_cache_lookup_in_txn(k, "/count", &en) == APR_SUCCESS ? (long) en->size : 0;
        if (n != sh->written) {
            snprintf(sh->why, sizeof sh->why, "%ld entries were written by the processes before, the cache says %ld", sh->written, n);
            _exit(1);
        }
        e.size = n + 1;
        nap();
        if (napr_cache_upsert_in_txn(k, "/count", &e) != APR_SUCCESS || napr_cache_commit_write(k) != APR_SUCCESS) {
            snprintf(sh->why, sizeof sh->why, "writing fails");
            _exit(1);
        }
        sh->written = n + 1;
        nap();
        __sync_sub_and_fetch(&sh->inside, 1);
        if (napr_cache_close(k) != APR_SUCCESS) {
            snprintf(sh->why, sizeof sh->why, "closing fails");
            _exit(1);
        }
        apr_pool_destroy(p);
    }
    _exit(0);
}

static void race(const char *path, int procs, int rounds, uint32_t seed)
{
    struct shared *sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid[32];
    int i, st, bad = 0;
    for (i = 0; i < procs; i++)
        if ((pid[i] = fork()) == 0)
            racer(path, rounds, seed * 31u + (uint32_t) i * 7919u, sh);
    sh->go = 1;
    for (i = 0; i < procs; i++) {
        waitpid(pid[i], &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1)
            bad = 1;
    }
    printf("%s\n", sh->why[0] ? sh->why : bad ? "a process died" : "ok");
    printf("%ld\n", sh->entered);
    fflush(stdout);
    _exit(0);
}

/* The other processes: cachedrv-probe PATH, cachedrv-hold PATH MODE. */
__attribute__((constructor)) static void other(int argc, char **argv)
{
    apr_pool_t *p;
    napr_cache_t *k;
    apr_status_t s;
    char ch;
    if (strncmp(argv[0], "cachedrv-", 9) != 0)
        return;
    if (!strcmp(argv[0], "cachedrv-race"))
        race(argv[1], atoi(argv[2]), atoi(argv[3]), (uint32_t) atol(argv[4]));
    apr_initialize();
    apr_pool_create(&p, NULL);
    s = napr_cache_open(&k, argv[1], p);
    if (argv[0][9] == 'p') {
        if (s == APR_SUCCESS)
            napr_cache_close(k);
        _exit(s == APR_SUCCESS ? 0 : 1);
    }
    ch = s == APR_SUCCESS ? 'O' : 'R';
    if (s == APR_SUCCESS && argv[2][0] == 'w') {        /* in the middle of a write transaction */
        napr_cache_entry_t e;
        memset(&e, 7, sizeof e);
        napr_cache_begin_write(k, p);
        napr_cache_upsert_in_txn(k, "/holder", &e);
    }
    if (write(1, &ch, 1) != 1)
        _exit(9);
    while (read(0, &ch, 1) > 0);
    if (s == APR_SUCCESS) {
        if (argv[2][0] == 'w')
            napr_cache_abort_write(k);
        napr_cache_close(k);
    }
    _exit(0);
}
