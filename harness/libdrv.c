/* Drives the containers and the size functions from a script on standard input, one result line per operation.
 *
 * libdrv heap      i KEY ID | x | n INDEX | s | a
 * libdrv hash KIND NEL FFACTOR      s KEYHEX | p KEYHEX ID | d KEYHEX | l | k MODULUS REST
 * libdrv size      f N | p HEXSTRING
 */
#include "human_size.h"
#include "napr_hash.h"
#include "napr_heap.h"
#include <apr_general.h>
#include <apr_strings.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static apr_pool_t *pool;

/* ---- heap */
typedef struct
{
    long key, id;
} node_t;

static int cmp_max(const void *a, const void *b)
{
    long x = ((const node_t *) a)->key, y = ((const node_t *) b)->key;
    return (x > y) - (x < y);
}

static int cmp_min(const void *a, const void *b)
{
    return 1000 * cmp_max(b, a);
}

static int heap_main(const char *kind, char *line, size_t cap)
{
    int locked = strchr(kind, 'r') != NULL;
    napr_heap_cmp_callback_fn_t *cmp = strchr(kind, '<') ? cmp_min : cmp_max;
    napr_heap_t *h = locked ? napr_heap_make_r(pool, cmp) : napr_heap_make(pool, cmp);
    while (fgets(line, (int) cap, stdin)) {
        if (line[0] == 'i') {
            node_t *n = malloc(sizeof(*n));
            sscanf(line + 1, "%ld %ld", &n->key, &n->id);
            printf("%d\n", locked ? napr_heap_insert_r(h, n) : napr_heap_insert(h, n));
        }
        else if (line[0] == 'x') {
            node_t *n = napr_heap_extract(h);
            if (n)
                printf("%ld %ld\n", n->key, n->id);
            else
                printf("none\n");
        }
        else if (line[0] == 'n') {
            node_t *n = napr_heap_get_nth(h, (unsigned int) strtoul(line + 1, NULL, 10));
            if (n)
                printf("%ld %ld\n", n->key, n->id);
            else
                printf("none\n");
        }
        else if (line[0] == 's')
            printf("%u\n", napr_heap_size(h));
        else if (line[0] == 'a') {
            unsigned int i, n = napr_heap_size(h);
            for (i = 0; i < n; i++) {
                node_t *x = napr_heap_get_nth(h, i);
                if (x)
                    printf("%ld ", x->id);
                else
                    printf("none ");
            }
            printf("\n");
        }
    }
    return 0;
}

static napr_heap_t *shared;
static int per_thread;

static void *heap_thread(void *arg)
{
    int i, t = (int) (intptr_t) arg;
    for (i = 0; i < per_thread; i++) {
        node_t *n = malloc(sizeof(*n));
        n->id = (long) t * per_thread + i;
        n->key = (n->id * 7919) % 101;
        if (napr_heap_insert_r(shared, n) != 0) {
            printf("insertion failed\n");
            fflush(stdout);
            _exit(1);
        }
    }
    return NULL;
}

static int heapmt_main(int threads, int n)
{
    pthread_t th[32];
    long i, total = (long) threads * n, last = 1L << 40;
    char *seen = calloc((size_t) total + 1, 1);
    node_t *x;
    shared = napr_heap_make_r(pool, cmp_max);
    per_thread = n;
    for (i = 0; i < threads; i++)
        pthread_create(&th[i], NULL, heap_thread, (void *) (intptr_t) i);
    for (i = 0; i < threads; i++)
        pthread_join(th[i], NULL);
    if (napr_heap_size(shared) != total)
        return printf("size %u instead of %ld\n", napr_heap_size(shared), total), 1;
    for (i = 0; (x = napr_heap_extract(shared)) != NULL; i++) {
        if (x->key > last)
            return printf("extracted %ld after %ld\n", x->key, last), 1;
        if (seen[x->id]++)
            return printf("element %ld extracted twice\n", x->id), 1;
        last = x->key;
    }
    if (i != total)
        return printf("%ld elements extracted instead of %ld\n", i, total), 1;
    printf("ok\n");
    return 0;
}

/* ---- hash */
typedef struct
{
    size_t len;
    unsigned char *key;
    long id;
    int kept;
} item_t;

static unsigned long weak_mod;

static const void *item_key(const void *p)
{
    return ((const item_t *) p)->key;
}

static apr_size_t item_len(const void *p)
{
    return ((const item_t *) p)->len;
}

static int item_cmp(const void *a, const void *b, apr_size_t n)
{
    return memcmp(a, b, n);
}

static apr_uint32_t item_hash(register const void *p, register apr_size_t n)
{
    const unsigned char *s = p;
    apr_uint32_t h = 2166136261u;
    while (n--)
        h = (h ^ *s++) * 16777619u;
    return weak_mod ? h % weak_mod : h;
}

static size_t unhex(const char *s, unsigned char *out)
{
    size_t n = 0;
    unsigned v;
    while (sscanf(s, "%2x", &v) == 1 && s[0] > ' ' && s[1] > ' ') {
        out[n++] = (unsigned char) v;
        s += 2;
    }
    out[n] = 0;
    return n;
}

static void puthex(const unsigned char *p, size_t n)
{
    while (n--)
        printf("%02x", *p++);
}

static int hash_main(const char *kind, size_t nel, size_t ff, char *line, size_t cap)
{
    int str = kind[0] == 's';
    napr_hash_t *h;
    unsigned char *key = malloc(cap);
    weak_mod = kind[0] == 'w' ? strtoul(kind + 1, NULL, 10) : 0;
    if (str)
        h = napr_hash_str_make(pool, nel, ff);
    else {
        napr_hash_create_args_t a;
        memset(&a, 0, sizeof(a));
        a.pool = pool;
        a.nel = nel;
        a.ffactor = ff;
        a.get_key = item_key;
        a.get_key_len = item_len;
        a.key_cmp = item_cmp;
        a.hash = item_hash;
        h = napr_hash_make_ex(&a);
    }
    if (napr_hash_pool_get(h) != pool)
        printf("wrong pool\n");
    while (fgets(line, (int) cap, stdin)) {
        char op = line[0];
        apr_uint32_t hv = 0;
        if (op == 's' || op == 'p' || op == 'd') {
            size_t n = unhex(line + 2, key);
            unsigned char *k = malloc(n + 1);       /* exactly as long as the key: an overrun is seen */
            void *got;
            memcpy(k, key, n);
            k[n] = 0;
            got = napr_hash_search(h, k, n, op == 's' ? NULL : &hv);
            if (op == 's' || (op == 'p' && got) || (op == 'd' && !got)) {
                if (!got)
                    printf("none\n");
                else if (str) {
                    printf("has ");
                    puthex(got, strlen(got));
                    printf("\n");
                }
                else
                    printf("has %ld\n", ((item_t *) got)->id);
            }
            else if (op == 'p') {
                char *sp = strchr(line + 2, ' ');
                if (str) {
                    char *copy = malloc(n + 1);
                    memcpy(copy, k, n + 1);
                    printf("set %d\n", napr_hash_set(h, copy, hv));
                }
                else {
                    item_t *it = malloc(sizeof(*it));
                    it->len = n;
                    it->key = malloc(n ? n : 1);
                    memcpy(it->key, k, n);
                    it->id = atol(sp);
                    printf("set %d\n", napr_hash_set(h, it, hv));
                }
            }
            else {
                napr_hash_remove(h, got, hv);
                printf("removed\n");
            }
            free(k);
        }
        else if (op == 'l' || op == 'k') {
            unsigned long mod = 0, rest = 0;
            apr_pool_t *sub;
            napr_hash_index_t *i;
            apr_pool_create(&sub, pool);
            if (op == 'k')
                sscanf(line + 1, "%lu %lu", &mod, &rest);
            printf("list");
            for (i = napr_hash_first(sub, h); i; i = napr_hash_next(i)) {
                const void *k = NULL;
                apr_size_t n = 0;
                void *v = NULL;
                unsigned long sum = 0;
                size_t j;
                napr_hash_this(i, &k, &n, &v);
                printf(" ");
                puthex(k, n);
                if (str) {
                    if (k != v)
                        printf("!value");
                }
                else {
                    printf("=%ld", ((item_t *) v)->id);
                    if (((item_t *) v)->len != n || memcmp(((item_t *) v)->key, k, n))
                        printf("!key");
                }
                napr_hash_this(i, NULL, NULL, NULL);
                for (j = 0; j < n; j++)
                    sum += ((const unsigned char *) k)[j];
                if (op == 'k' && mod && sum % mod == rest) {
                    napr_hash_search(h, k, n, &hv);
                    napr_hash_remove(h, v, hv);     /* deleting the current entry is allowed */
                }
            }
            printf("\n");
            apr_pool_destroy(sub);
        }
    }
    return 0;
}

/* ---- sizes */
static int size_main(char *line, size_t cap)
{
    unsigned char *s = malloc(cap);
    while (fgets(line, (int) cap, stdin)) {
        if (line[0] == 'f')
            printf("%s\n", format_human_size((apr_off_t) strtoll(line + 1, NULL, 10), pool));
        else if (line[0] == 'p') {
            size_t n = unhex(line + 2, s);
            char *t = malloc(n + 1);
            memcpy(t, s, n + 1);
            printf("%lld\n", (long long) parse_human_size(t));
            free(t);
        }
    }
    return 0;
}

int main(int argc, char **argv)
{
    size_t cap = 1 << 20;
    char *line = malloc(cap);
    apr_initialize();
    apr_pool_create(&pool, NULL);
    if (!strcmp(argv[1], "heap"))
        return heap_main(argv[2], line, cap);
    if (!strcmp(argv[1], "heapmt"))
        return heapmt_main(atoi(argv[2]), atoi(argv[3]));
    if (!strcmp(argv[1], "hash"))
        return hash_main(argv[2], strtoul(argv[3], NULL, 10), strtoul(argv[4], NULL, 10), line, cap);
    if (!strcmp(argv[1], "size"))
        return size_main(line, cap);
    return 2;
}
