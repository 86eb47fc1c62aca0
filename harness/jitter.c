/* Fuzzed schedules at the granularity of memory accesses.
 *
 * The repository's objects of the "jit" builds are compiled with a callback before every load and store of memory that is not
 * local to a function.  Here, each thread gives up the processor or sleeps at random before some of them, so that sections
 * that are not protected against each other really overlap.  JITTER=SEED,MEAN: on average one interruption every MEAN accesses
 * (at most 150 per thread); without it, nothing happens.  JITTER=SEED,SPAN,MASK: at most one interruption, but a longer one, per
 * call that the driver has announced with jitter_focus, before one of its first SPAN accesses; MASK chooses the kinds of calls.
 */
#include <errno.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

static uint32_t seed, mean, salt, mask;
static __thread uint32_t state, left, used;

__attribute__((constructor)) static void init(void)
{
    const char *s = getenv("JITTER");
    unsigned a, b, c = 0;
    if (s && sscanf(s, "%u,%u,%u", &a, &b, &c) >= 2 && b) {
        seed = a;
        mean = b;
        mask = c;
    }
}

static uint32_t next(void)
{
    state ^= state << 13;
    state ^= state >> 17;
    state ^= state << 5;
    return state;
}

static void start(void)
{
    state = (seed * 2654435761u) ^ (__sync_add_and_fetch(&salt, 1) * 0x9E3779B9u) ^ 0x5bd1e995u ^ (uint32_t) getpid();
    if (!state)
        state = 1;
}

/* Called by a driver before (kind > 0) and after (0) a call of that kind. */
void jitter_focus(uint32_t kind)
{
    if (!mask)
        return;
    if (!state)
        start();
    left = kind & mask && used < 400 ? next() % mean : UINT32_MAX;
}

static void interrupt(void)
{
    uint32_t r;
    int e = errno;
    if (!mean)
        return;
    if (mask) {
        if (state && used < 400 && left == UINT32_MAX) {        /* left has just gone below 0: a chosen access */
            struct timespec t = { 0, (long) (next() >> 4) % (next() % 3 ? 400000 : 4000000) };
            used++;
            nanosleep(&t, NULL);
        }
        left = UINT32_MAX;
        errno = e;
        return;
    }
    if (!state) {
        start();
        left = next() % (2 * mean);
        return;
    }
    left = next() % (2 * mean);
    if (used >= 150)
        return;
    used++;
    r = next();
    if (r % 4) {
        struct timespec t = { 0, (long) (r >> 8) % 100000 };
        nanosleep(&t, NULL);
    }
    else
        sched_yield();
    errno = e;
}

#define HOOK(n) void __sanitizer_cov_##n(void *p) { if (!left--) interrupt(); }
HOOK(load1) HOOK(load2) HOOK(load4) HOOK(load8) HOOK(load16)
HOOK(store1) HOOK(store2) HOOK(store4) HOOK(store8) HOOK(store16)
void __sanitizer_cov_trace_pc(void) { }

/* ---- Memory pools and hash tables are not made for two threads at once: the calls that allocate from a pool or change a
 * table take a little longer here, and the program is stopped if another thread uses the same one meanwhile. */
#include <apr_file_io.h>
#include <apr_hash.h>
#include <apr_mmap.h>
#include <apr_pools.h>
#include <apr_strings.h>
#include <pthread.h>

#define SLOTS 512
static struct { const void *obj; int users, writers; pthread_t writer; } slots[SLOTS];
static volatile int guard;

static void lock(void)
{
    while (__sync_lock_test_and_set(&guard, 1))
        sched_yield();
}

static int enter(const void *obj, int writes)
{
    int i, k = -1;
    if (!mean || !obj)
        return -1;
    lock();
    for (i = 0; i < SLOTS; i++) {
        if (slots[i].users && slots[i].obj == obj)
            break;
        if (!slots[i].users && k < 0)
            k = i;
    }
    if (i < SLOTS) {
        k = i;
        if (slots[k].writers ? !pthread_equal(slots[k].writer, pthread_self()) : writes) {
            static const char msg[] = "runtime error: two threads use the same pool or table at once\n";
            if (write(2, msg, sizeof msg - 1) < 0)
                _exit(98);
            _exit(98);
        }
    }
    if (k >= 0) {
        slots[k].obj = obj;
        slots[k].users++;
        if (writes && !slots[k].writers++)
            slots[k].writer = pthread_self();
    }
    __sync_lock_release(&guard);
    for (i = 0; i < 8; i++)
        if (!left--)
            interrupt();
    return k;
}

static void leave(int k, int writes)
{
    if (k < 0)
        return;
    lock();
    slots[k].users--;
    slots[k].writers -= writes;
    __sync_lock_release(&guard);
}

#define WRAP(ret, name, params, args, obj, writes) \
    ret __real_##name params; \
    ret __wrap_##name params { int k_ = enter(obj, writes); ret r_ = __real_##name args; leave(k_, writes); return r_; }

WRAP(void *, apr_palloc, (apr_pool_t *p, apr_size_t n), (p, n), p, 1)
WRAP(void *, apr_pcalloc, (apr_pool_t *p, apr_size_t n), (p, n), p, 1)
WRAP(char *, apr_pstrdup, (apr_pool_t *p, const char *s), (p, s), p, 1)
WRAP(char *, apr_pstrndup, (apr_pool_t *p, const char *s, apr_size_t n), (p, s, n), p, 1)
WRAP(void *, apr_pmemdup, (apr_pool_t *p, const void *s, apr_size_t n), (p, s, n), p, 1)
WRAP(apr_status_t, apr_file_open, (apr_file_t **f, const char *n, apr_int32_t fl, apr_fileperms_t pe, apr_pool_t *p), (f, n, fl, pe, p), p, 1)
WRAP(apr_status_t, apr_mmap_create, (apr_mmap_t **m, apr_file_t *f, apr_off_t o, apr_size_t s, apr_int32_t fl, apr_pool_t *p), (m, f, o, s, fl, p), p, 1)
WRAP(apr_hash_t *, apr_hash_make, (apr_pool_t *p), (p), p, 1)
WRAP(void *, apr_hash_get, (apr_hash_t *h, const void *k, apr_ssize_t n), (h, k, n), h, 0)

void __real_apr_hash_set(apr_hash_t *h, const void *k, apr_ssize_t n, const void *v);
void __wrap_apr_hash_set(apr_hash_t *h, const void *k, apr_ssize_t n, const void *v)
{
    int i = enter(h, 1);
    __real_apr_hash_set(h, k, n, v);
    leave(i, 1);
}
