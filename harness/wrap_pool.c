/* Turns every pool allocation made by ftwin's own code into a heap block of its own, freed with the pool,
 * so that AddressSanitizer sees overruns and uses after the pool is gone. */
#include <apr_pools.h>
#include <stdlib.h>
#include <string.h>

static apr_status_t release(void *p)
{
    free(p);
    return APR_SUCCESS;
}

void *__wrap_apr_palloc(apr_pool_t *pool, apr_size_t size)
{
    void *p = malloc(size);
    if (p) {
        apr_pool_cleanup_register(pool, p, release, apr_pool_cleanup_null);
    }
    return p;
}

char *__wrap_apr_pstrdup(apr_pool_t *pool, const char *s)
{
    size_t n;
    char *p;
    if (!s)
        return NULL;
    n = strlen(s) + 1;
    p = __wrap_apr_palloc(pool, n);
    memcpy(p, s, n);
    return p;
}

void *__wrap_apr_pmemdup(apr_pool_t *pool, const void *m, apr_size_t n)
{
    void *p;
    if (!m)
        return NULL;
    p = __wrap_apr_palloc(pool, n);
    if (n)
        memcpy(p, m, n);
    return p;
}

char *__wrap_apr_pstrmemdup(apr_pool_t *pool, const char *s, apr_size_t n)
{
    char *p;
    if (!s)
        return NULL;
    p = __wrap_apr_palloc(pool, n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}

char *__wrap_apr_pstrndup(apr_pool_t *pool, const char *s, apr_size_t n)
{
    const char *e;
    if (!s)
        return NULL;
    e = memchr(s, 0, n);
    return __wrap_apr_pstrmemdup(pool, s, e ? (apr_size_t) (e - s) : n);
}
