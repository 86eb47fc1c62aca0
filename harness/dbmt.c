/* Reader and writer threads over one database.  Every write transaction checks the generation it finds, sets all keys and
 * the counter to the next one and commits (or aborts); every reader checks that its snapshot is one whole generation.
 * Exits 1 with a line on standard output if not.
 *
 * dbmt path readers writers txns keys vlen seed abort% del% process-lock empty%
 */
#include "napr_db.h"
#include <apr_general.h>
#include <apr_thread_proc.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void jitter_focus(uint32_t kind) __attribute__((weak));
static void focus(uint32_t kind)
{
    if (jitter_focus)
        jitter_focus(kind);
}

static napr_db_env_t *env;
static int nkeys, vlen, txns, abort_pct, del_pct, empty_pct, writers;
static volatile int done_writers;
static long committed;                  /* under the database's own writer lock */
static volatile int inside;
static pthread_mutex_t out_lock = PTHREAD_MUTEX_INITIALIZER;

static void fail(const char *what, long a, long b)
{
    pthread_mutex_lock(&out_lock);
    printf("%s (%ld, %ld)\n", what, a, b);
    fflush(stdout);
    _exit(1);
}

static uint32_t rnd(uint32_t *s)
{
    *s ^= *s << 13;
    *s ^= *s >> 17;
    *s ^= *s << 5;
    return *s;
}

static void mkkey(int i, char *buf, napr_db_val_t *k)
{
    k->size = (apr_size_t) sprintf(buf, "key-%06d", i * 7919 % 1000003);
    k->data = buf;
}

/* A value of generation gen: the number repeated. */
static void mkval(unsigned char *buf, uint64_t gen)
{
    int i;
    for (i = 0; i + 8 <= vlen; i += 8)
        memcpy(buf + i, &gen, 8);
    memset(buf + i, 0, (size_t) (vlen - i));
}

static long valgen(const napr_db_val_t *v, const char *who)
{
    uint64_t g, h;
    int i;
    if ((int) v->size != vlen)
        fail(who, -1, (long) v->size);
    memcpy(&g, v->data, 8);
    for (i = 8; i + 8 <= vlen; i += 8) {
        memcpy(&h, (char *) v->data + i, 8);
        if (h != g)
            fail("a value mixes generations", (long) g, (long) h);
    }
    return (long) g;
}

static long counter(napr_db_txn_t *t)
{
    napr_db_val_t k = { 7, "counter" }, v;
    apr_status_t s = napr_db_get(t, &k, &v);
    uint64_t g;
    if (s == APR_NOTFOUND)
        return 0;
    if (s != APR_SUCCESS || v.size != 8)
        fail("counter unreadable", s, 0);
    memcpy(&g, v.data, 8);
    return (long) g;
}

/* Every generation g keeps the keys whose index i satisfies present(g, i). */
static int present(long g, int i)
{
    return g > 0 && (del_pct == 0 || ((unsigned) (g * 31 + i * 17) % 100) >= (unsigned) del_pct);
}

static long check_snapshot(napr_db_txn_t *t, const char *who)
{
    char kb[64];
    napr_db_val_t k, v;
    long g = counter(t);
    int i, want = 0, got = 0;
    napr_db_cursor_t *c;
    apr_status_t s;
    for (i = 0; i < nkeys; i++) {
        mkkey(i, kb, &k);
        s = napr_db_get(t, &k, &v);
        if (present(g, i)) {
            want++;
            if (s != APR_SUCCESS)
                fail("a key of this generation is missing", g, i);
            if (valgen(&v, "value size") != g)
                fail("snapshot mixes generations (counter, value)", g, valgen(&v, who));
        }
        else if (s != APR_NOTFOUND)
            fail("a key deleted in this generation is there", g, i);
    }
    if (napr_db_cursor_open(t, &c) != APR_SUCCESS)
        fail("cursor", 0, 0);
    for (s = napr_db_cursor_get(c, &k, &v, NAPR_DB_FIRST); s == APR_SUCCESS; s = napr_db_cursor_get(c, &k, &v, NAPR_DB_NEXT)) {
        if (k.size == 7)
            continue;
        got++;
        if (valgen(&v, "cursor") != g)
            fail("scan mixes generations (counter, value)", g, valgen(&v, who));
    }
    napr_db_cursor_close(c);
    if (got != want)
        fail("scan finds another number of keys (want, got)", want, got);
    return g;
}

static void *writer(void *arg)
{
    uint32_t s = (uint32_t) (uintptr_t) arg | 1;
    unsigned char *buf = malloc((size_t) vlen);
    char kb[64];
    int n, i;
    for (n = 0; n < txns; n++) {
        napr_db_txn_t *t;
        napr_db_val_t k, v;
        long g;
        int drop;
        focus(4);
        if (napr_db_txn_begin(env, 0, &t) != APR_SUCCESS)
            fail("write transaction does not begin", n, 0);
        focus(0);
        if (__sync_add_and_fetch(&inside, 1) != 1)
            fail("two write transactions at once", inside, 0);
        g = counter(t);
        if (g != committed)
            fail("a write transaction does not start from the last commit (found, committed)", g, committed);
        if (rnd(&s) % 4 == 0)
            check_snapshot(t, "writer");
        if ((int) (rnd(&s) % 100) < empty_pct) {                /* nothing changed, or something refused */
            if (rnd(&s) & 1) {
                k.data = "no such key";
                k.size = 11;
                if (napr_db_del(t, &k, NULL) != APR_NOTFOUND)
                    fail("del of a missing key", n, 0);
            }
            drop = (int) (rnd(&s) & 1);
            __sync_sub_and_fetch(&inside, 1);
            focus(8);
            if (drop ? napr_db_txn_abort(t) != APR_SUCCESS : napr_db_txn_commit(t) != APR_SUCCESS)
                fail(drop ? "abort fails" : "commit fails", n, 0);
            focus(0);
            continue;
        }
        mkval(buf, (uint64_t) (g + 1));
        if (rnd(&s) % 8 == 0)
            sched_yield();
        for (i = 0; i < nkeys; i++) {
            mkkey(i, kb, &k);
            if (present(g + 1, i)) {
                apr_status_t st;
                v.data = buf;
                v.size = (apr_size_t) vlen;
                st = napr_db_put(t, &k, &v);
                if (st != APR_SUCCESS)
                    fail("put", st, i);
            }
            else {
                apr_status_t st = napr_db_del(t, &k, NULL);
                if (st != (present(g, i) ? APR_SUCCESS : APR_NOTFOUND))
                    fail("del", st, i);
            }
        }
        k.data = "counter";
        k.size = 7;
        {
            uint64_t next = (uint64_t) (g + 1);
            v.data = &next;
            v.size = 8;
            if (napr_db_put(t, &k, &v) != APR_SUCCESS)
                fail("put counter", g, 0);
        }
        drop = (int) (rnd(&s) % 100) < abort_pct;
        if (!drop)
            committed++;
        __sync_sub_and_fetch(&inside, 1);
        focus(8);
        if (drop ? napr_db_txn_abort(t) != APR_SUCCESS : napr_db_txn_commit(t) != APR_SUCCESS)
            fail(drop ? "abort fails" : "commit fails", n, 0);
        focus(0);
    }
    __sync_add_and_fetch(&done_writers, 1);
    return NULL;
}

static void *reader(void *arg)
{
    uint32_t s = (uint32_t) (uintptr_t) arg | 1;
    long last = 0;
    int i;
    while (done_writers < writers) {
        napr_db_txn_t *t;
        long g, g2;
        focus(1);
        if (napr_db_txn_begin(env, NAPR_DB_RDONLY, &t) != APR_SUCCESS)
            fail("read transaction does not begin", 0, 0);
        focus(0);
        g = check_snapshot(t, "reader");
        if (g < last)
            fail("a later snapshot is older (before, now)", last, g);
        last = g;
        for (i = (int) (rnd(&s) % 6); i > 0; i--) {
            sched_yield();
            g2 = check_snapshot(t, "reader again");
            if (g2 != g)
                fail("a snapshot changes (before, now)", g, g2);
        }
        focus(2);
        if ((rnd(&s) & 1 ? napr_db_txn_commit(t) : napr_db_txn_abort(t)) != APR_SUCCESS)
            fail("end of read transaction", 0, 0);
        focus(0);
    }
    return NULL;
}

int main(int argc, char **argv)
{
    apr_pool_t *p;
    pthread_t th[64];
    int readers = atoi(argv[2]), i, n = 0;
    unsigned lock = atoi(argv[10]) ? 0 : NAPR_DB_INTRAPROCESS_LOCK;
    uint32_t seed = (uint32_t) atol(argv[7]);
    napr_db_txn_t *t;
    long g;
    writers = atoi(argv[3]);
    txns = atoi(argv[4]);
    nkeys = atoi(argv[5]);
    vlen = atoi(argv[6]);
    abort_pct = atoi(argv[8]);
    del_pct = atoi(argv[9]);
    empty_pct = argc > 11 ? atoi(argv[11]) : 0;
    apr_initialize();
    apr_pool_create(&p, NULL);
    if (napr_db_env_create(&env, p) || napr_db_env_set_mapsize(env, (apr_size_t) 256 << 20)
        || napr_db_env_open(env, argv[1], NAPR_DB_CREATE | lock))
        fail("open", 0, 0);
    for (i = 0; i < writers; i++)
        pthread_create(&th[n++], NULL, writer, (void *) (uintptr_t) (seed * 31u + (unsigned) i * 7919u));
    for (i = 0; i < readers; i++)
        pthread_create(&th[n++], NULL, reader, (void *) (uintptr_t) (seed * 17u + (unsigned) i * 104729u));
    for (i = 0; i < n; i++)
        pthread_join(th[i], NULL);
    napr_db_env_close(env);
    if (napr_db_env_create(&env, p) || napr_db_env_set_mapsize(env, (apr_size_t) 256 << 20) || napr_db_env_open(env, argv[1], lock))
        fail("reopen", 0, 0);
    napr_db_txn_begin(env, NAPR_DB_RDONLY, &t);
    g = check_snapshot(t, "end");
    if (g != committed)
        fail("commits lost (counter, committed)", g, committed);
    napr_db_txn_abort(t);
    printf("ok %ld\n", g);
    return 0;
}
