/* Thread pool under a fuzzed schedule.
 *
 * pooldrv SEED THREADS ADDERS CHAIN PERTURB LATE WAITERS POOLS GENERATIONS GATE ROUND...        (ROUND = number of tasks of a round)
 *
 * POOLS thread pools work at the same time, GENERATIONS times in a row.  Every round queues its tasks (from ADDERS threads; every CHAIN-th task queues one more from inside the callback), waits, and
 * checks that all of them have run exactly once and none is still running.  The lock and condition functions used by the pool
 * are replaced at link time by versions that yield or sleep at random points and let waits end early now and then, as the
 * specification of condition variables allows.
 */
#include "napr_threadpool.h"
#include <apr_general.h>
#include <apr_thread_cond.h>
#include <apr_thread_mutex.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static unsigned seed0;
static int perturb;
static __thread uint32_t rs;
static uint32_t salt;

static uint32_t rnd(void)
{
    if (!rs)
        rs = (seed0 * 2654435761u) ^ (__sync_add_and_fetch(&salt, 1) * 0x9E3779B9u) ^ 1u;
    if (!rs)
        rs = 1;
    rs ^= rs << 13;
    rs ^= rs >> 17;
    rs ^= rs << 5;
    return rs;
}

static void jitter(void)
{
    uint32_t r;
    if (!perturb)
        return;
    r = rnd();
    if (r % 100 < (uint32_t) perturb) {
        if ((r >> 8) % 4 == 0)
            usleep((r >> 12) % 300);
        else
            sched_yield();
    }
}

apr_status_t __real_apr_thread_mutex_lock(apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_mutex_unlock(apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m);
apr_status_t __real_apr_thread_cond_signal(apr_thread_cond_t *c);
apr_status_t __real_apr_thread_cond_broadcast(apr_thread_cond_t *c);

apr_status_t __wrap_apr_thread_mutex_lock(apr_thread_mutex_t *m)
{
    jitter();
    return __real_apr_thread_mutex_lock(m);
}

apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m)
{
    apr_status_t s = __real_apr_thread_mutex_unlock(m);
    jitter();
    return s;
}

apr_status_t __wrap_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m)
{
    if (perturb && rnd() % 1000 < 30) {         /* a spurious wakeup */
        __real_apr_thread_mutex_unlock(m);
        jitter();
        return __real_apr_thread_mutex_lock(m);
    }
    return __real_apr_thread_cond_wait(c, m);
}

apr_status_t __wrap_apr_thread_cond_signal(apr_thread_cond_t *c)
{
    jitter();
    return __real_apr_thread_cond_signal(c);
}

apr_status_t __wrap_apr_thread_cond_broadcast(apr_thread_cond_t *c)
{
    jitter();
    return __real_apr_thread_cond_broadcast(c);
}

struct pool_case;

typedef struct
{
    int runs, running, chain, added;
} task_t;

/* One thread pool and what it is given to do */
typedef struct pool_case
{
    napr_threadpool_t *tp;
    task_t *tasks;
    long ntasks, queued, left_to_add;
    int closed;
    apr_pool_t *pool;
} case_t;

static int nth, adders, chain, late, waiters, rounds, gate;
static long *round_of;

static void fail(const char *what, long a, long b)
{
    printf("%s (%ld, %ld)\n", what, a, b);
    fflush(stdout);
    _exit(1);
}

static void queue(case_t *c, int chained)
{
    task_t *t = c->tasks + __sync_fetch_and_add(&c->queued, 1);
    t->chain = chained;
    if (napr_threadpool_add(c->tp, t) != APR_SUCCESS)
        fail("add failed", 0, 0);
    __sync_fetch_and_add(&t->added, 1);
}

static apr_status_t work(void *ctx, void *data)
{
    case_t *c = ctx;
    task_t *t = data;
    if (t < c->tasks || t >= c->tasks + c->ntasks)
        fail("wrong data or context", 0, 0);
    if (__sync_add_and_fetch(&t->running, 1) != 1)
        fail("a task runs twice at the same time", t - c->tasks, 0);
    while (__atomic_load_n(&c->closed, __ATOMIC_SEQ_CST))
        usleep(200);
    jitter();
    if (t->chain)
        queue(c, 0);
    jitter();
    __sync_fetch_and_add(&t->runs, 1);
    __sync_fetch_and_sub(&t->running, 1);
    return (t - c->tasks) % 3 == 0 ? APR_EGENERAL : APR_SUCCESS;
}

static void *adder(void *arg)
{
    case_t *c = arg;
    for (;;) {
        long n = __sync_sub_and_fetch(&c->left_to_add, 1);
        if (n < 0)
            return NULL;
        queue(c, chain && n % chain == 0);
        jitter();
    }
}

/* Waits, and looks at the tasks that had been queued before */
static void *waiter(void *arg)
{
    case_t *c = arg;
    long n = __atomic_load_n(&c->queued, __ATOMIC_SEQ_CST), k;
    char *before = calloc((size_t) n + 1, 1);
    for (k = 0; k < n; k++)
        before[k] = (char) __atomic_load_n(&c->tasks[k].added, __ATOMIC_SEQ_CST);
    if (napr_threadpool_wait(c->tp) != APR_SUCCESS)
        fail("wait failed", 0, 0);
    for (k = 0; k < n; k++)
        if (before[k]) {
            if (__atomic_load_n(&c->tasks[k].running, __ATOMIC_SEQ_CST))
                fail("wait returned while a task queued before is running", k, 0);
            if (__atomic_load_n(&c->tasks[k].runs, __ATOMIC_SEQ_CST) != 1)
                fail("wait returned, task queued before ran n times: task, n", k, c->tasks[k].runs);
        }
    free(before);
    return NULL;
}

static void *run_case(void *arg)
{
    case_t *c = arg;
    int i;
    long k;
    if (napr_threadpool_init(&c->tp, c, (unsigned long) nth, work, c->pool) != APR_SUCCESS)
        fail("init failed", 0, 0);
    for (i = 0; i < rounds; i++) {
        pthread_t th[16], wt[16];
        int a;
        c->left_to_add = round_of[i];
        __atomic_store_n(&c->closed, gate, __ATOMIC_SEQ_CST);      /* no task ends before all are queued */
        for (a = 0; a < adders; a++)
            pthread_create(&th[a], NULL, adder, c);
        for (a = 0; a < waiters; a++)
            pthread_create(&wt[a], NULL, waiter, c);
        if (late && adders && !gate)                     /* waits while others still queue */
            waiter(c);
        else if (!adders)
            adder(c);
        for (a = 0; a < adders; a++)
            pthread_join(th[a], NULL);
        __atomic_store_n(&c->closed, 0, __ATOMIC_SEQ_CST);
        if (napr_threadpool_wait(c->tp) != APR_SUCCESS)
            fail("wait failed", i, 0);
        for (k = 0; k < __atomic_load_n(&c->queued, __ATOMIC_SEQ_CST); k++) {
            if (__atomic_load_n(&c->tasks[k].running, __ATOMIC_SEQ_CST))
                fail("wait returned while a task is running: task, round", k, i);
            if (__atomic_load_n(&c->tasks[k].runs, __ATOMIC_SEQ_CST) != 1)
                fail("wait returned, task ran n times: task, n", k, c->tasks[k].runs);
        }
        for (a = 0; a < waiters; a++)
            pthread_join(wt[a], NULL);
        if (rnd() % 3 == 0 && napr_threadpool_wait(c->tp) != APR_SUCCESS)
            fail("second wait failed", i, 0);
    }
    if (napr_threadpool_shutdown(c->tp) != APR_SUCCESS)
        fail("shutdown failed", 0, 0);
    for (k = 0; k < __atomic_load_n(&c->queued, __ATOMIC_SEQ_CST); k++)
        if (c->tasks[k].runs != 1)
            fail("task ran n times after all: task, n", k, c->tasks[k].runs);
    apr_pool_destroy(c->pool);
    return NULL;
}

/* pooldrv SEED THREADS ADDERS CHAIN PERTURB LATE WAITERS POOLS GENERATIONS GATE ROUND... */
int main(int argc, char **argv)
{
    apr_pool_t *pool;
    int i, g, pools, generations;
    long total = 0, done = 0;
    apr_initialize();
    apr_pool_create(&pool, NULL);
    seed0 = (unsigned) strtoul(argv[1], NULL, 10);
    nth = atoi(argv[2]);
    adders = atoi(argv[3]);
    chain = atoi(argv[4]);
    perturb = atoi(argv[5]);
    late = atoi(argv[6]);
    waiters = atoi(argv[7]);
    pools = atoi(argv[8]);
    generations = atoi(argv[9]);
    gate = atoi(argv[10]);
    rounds = argc - 11;
    round_of = calloc((size_t) rounds + 1, sizeof(long));
    for (i = 0; i < rounds; i++) {
        round_of[i] = atol(argv[i + 11]);
        total += round_of[i] * 2 + 2;
    }
    for (g = 0; g < generations; g++) {
        case_t c[8] = { { 0 } };
        pthread_t th[8];
        for (i = 0; i < pools; i++) {
            c[i].tasks = calloc((size_t) total + 1, sizeof(task_t));
            c[i].ntasks = total;
            apr_pool_create(&c[i].pool, pool);
        }
        for (i = 1; i < pools; i++)
            pthread_create(&th[i], NULL, run_case, &c[i]);
        run_case(&c[0]);
        for (i = 1; i < pools; i++)
            pthread_join(th[i], NULL);
        for (i = 0; i < pools; i++) {
            done += c[i].queued;
            free(c[i].tasks);
        }
    }
    printf("ok %ld\n", done);
    return 0;
}
