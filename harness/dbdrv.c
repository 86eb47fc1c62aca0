/* Runs a script of database operations read from standard input and prints the result of each.
 *
 * One operation per line; keys and inline values are hexadecimal ("-" is the empty string), other values are
 * "len:seed".  The transaction of an operation is "w" (the write transaction) or a reader number.
 */
#include "napr_db.h"
#include <apr_general.h>
#include <apr_mmap.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <zlib.h>
#include <unistd.h>

void iolog_watch(const char *path);
void iolog_start(const char *log);
void iolog_event(int type);
void iolog_fault(char kind, long nth, int err, int shrt, int sticky);
long iolog_fired(void);

#define NSLOT 160
static apr_pool_t *root_pool, *env_pool;
static napr_db_env_t *env;
static napr_db_txn_t *wtxn, *rtxn[NSLOT];
static napr_db_cursor_t *cur[NSLOT];

static const char *name(apr_status_t s)
{
    static char buf[64];
    if (s == APR_SUCCESS) return "OK";
    if (s == APR_NOTFOUND) return "NOTFOUND";
    if (s == APR_EEXIST) return "EEXIST";
    snprintf(buf, sizeof buf, "ERR%d", (int) s);
    return buf;
}

static int hexv(int c)
{
    return c <= '9' ? c - '0' : c - 'a' + 10;
}

/* The returned blocks are exactly as long as the value, so that overreads are seen. */
static napr_db_val_t val(const char *s)
{
    napr_db_val_t v;
    const char *colon = strchr(s, ':');
    size_t i;
    if (colon) {
        unsigned long long seed = strtoull(colon + 1, NULL, 10);
        size_t at = (size_t) (seed >> 20) - 1;          /* the byte that is another one */
        uint32_t x = (uint32_t) ((seed & 0xFFFFF) * 2654435761u + 12345u);
        v.size = strtoul(s, NULL, 10);
        v.data = malloc(v.size + (v.size == 0));
        for (i = 0; i < v.size; i++) {
            x = x * 1103515245u + 12345u;
            ((unsigned char *) v.data)[i] = (unsigned char) (x >> 16) ^ (i == at ? 0x55 : 0);
        }
        return v;
    }
    v.size = s[0] == '-' ? 0 : strlen(s) / 2;
    v.data = malloc(v.size + (v.size == 0));
    for (i = 0; i < v.size; i++)
        ((unsigned char *) v.data)[i] = (unsigned char) (hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]));
    return v;
}

static void hex(const napr_db_val_t *v)
{
    size_t i;
    if (v->size == 0)
        putchar('-');
    for (i = 0; i < v->size; i++)
        printf("%02x", ((unsigned char *) v->data)[i]);
}

static void pv(const napr_db_val_t *v)
{
    printf("%lu:%08lx", (unsigned long) v->size, (unsigned long) crc32(0, v->data, (uInt) v->size));
}

static napr_db_txn_t *txn(const char *s)
{
    return s[0] == 'w' ? wtxn : rtxn[atoi(s)];
}

static void dump(napr_db_txn_t *t, int backward)
{
    napr_db_cursor_t *c;
    napr_db_val_t k, v;
    unsigned long n = 0;
    apr_status_t s = napr_db_cursor_open(t, &c);
    if (s != APR_SUCCESS) {
        printf("%s\n", name(s));
        return;
    }
    for (s = napr_db_cursor_get(c, &k, &v, backward ? NAPR_DB_LAST : NAPR_DB_FIRST); s == APR_SUCCESS;
         s = napr_db_cursor_get(c, &k, &v, backward ? NAPR_DB_PREV : NAPR_DB_NEXT)) {
        printf(" ");
        hex(&k);
        printf("=");
        pv(&v);
        if (++n > 2000000)
            break;
    }
    printf(" end %s\n", name(s));
    napr_db_cursor_close(c);
}

int main(void)
{
    static char line[1 << 20], a[1 << 18], b[1 << 18], c[1 << 18], d[256];
    apr_status_t s;
    apr_initialize();
    apr_pool_create(&root_pool, NULL);
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        char op[32] = "";
        a[0] = b[0] = c[0] = d[0] = 0;
        sscanf(line, "%31s %262143s %262143s %262143s %255s", op, a, b, c, d);
        if (!strcmp(op, "open")) {      /* open path mapsize flags */
            apr_pool_create(&env_pool, root_pool);
            s = napr_db_env_create(&env, env_pool);
            if (s == APR_SUCCESS) s = napr_db_env_set_mapsize(env, strtoull(b, NULL, 10));
            if (s == APR_SUCCESS) s = napr_db_env_open(env, a, (unsigned) atoi(c));
            printf("%s\n", name(s));
            if (s != APR_SUCCESS) {
                env = NULL;
                apr_pool_destroy(env_pool);
            }
        }
        else if (!strcmp(op, "close")) {
            s = napr_db_env_close(env);
            env = NULL;
            apr_pool_destroy(env_pool);
            printf("%s\n", name(s));
        }
        else if (!strcmp(op, "wbegin"))
            printf("%s\n", name(napr_db_txn_begin(env, 0, &wtxn)));
        else if (!strcmp(op, "commit")) {
            fflush(stdout);
            s = napr_db_txn_commit(wtxn);
            wtxn = NULL;
            printf("%s\n", name(s));
            fflush(stdout);
        }
        else if (!strcmp(op, "abort")) {
            s = napr_db_txn_abort(wtxn);
            wtxn = NULL;
            printf("%s\n", name(s));
        }
        else if (!strcmp(op, "rbegin"))
            printf("%s\n", name(napr_db_txn_begin(env, NAPR_DB_RDONLY, &rtxn[atoi(a)])));
        else if (!strcmp(op, "rtry")) { /* a reader that may be refused, ended at once */
            napr_db_txn_t *t = NULL;
            s = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t);
            if (s == APR_SUCCESS)
                napr_db_txn_abort(t);
            printf("%s\n", name(s));
        }
        else if (!strcmp(op, "rend")) { /* rend slot c|a */
            s = b[0] == 'c' ? napr_db_txn_commit(rtxn[atoi(a)]) : napr_db_txn_abort(rtxn[atoi(a)]);
            rtxn[atoi(a)] = NULL;
            printf("%s\n", name(s));
        }
        else if (!strcmp(op, "put")) {  /* put txn key value */
            napr_db_val_t k = val(b), v = val(c);
            printf("%s\n", name(napr_db_put(txn(a), &k, &v)));
            memset(k.data, 0xEE, k.size);
            memset(v.data, 0xEE, v.size);
            free(k.data);
            free(v.data);
        }
        else if (!strcmp(op, "get")) {
            napr_db_val_t k = val(b), v;
            s = napr_db_get(txn(a), &k, &v);
            if (s == APR_SUCCESS) {
                printf("OK ");
                pv(&v);
                printf("\n");
            }
            else
                printf("%s\n", name(s));
            free(k.data);
        }
        else if (!strcmp(op, "del")) {  /* del txn key [value] */
            napr_db_val_t k = val(b), v = { 0 };
            if (c[0]) v = val(c);
            printf("%s\n", name(napr_db_del(txn(a), &k, c[0] ? &v : NULL)));
            memset(k.data, 0xEE, k.size);
            free(k.data);
            free(v.data);
        }
        else if (!strcmp(op, "copen"))  /* copen cursor txn */
            printf("%s\n", name(napr_db_cursor_open(txn(b), &cur[atoi(a)])));
        else if (!strcmp(op, "cclose"))
            printf("%s\n", name(napr_db_cursor_close(cur[atoi(a)])));
        else if (!strcmp(op, "cget")) { /* cget cursor op key */
            static const char *ops[] = { "first", "last", "next", "prev", "set", "range", "cur" };
            napr_db_val_t in = val(c[0] ? c : "-"), k = in, v = { 0 };
            int o;
            char *without = strchr(b, '-');     /* "next-k": the key is not asked for; -v: the value; -kv: neither */
            const char *miss = without ? without + 1 : "";
            if (without)
                *without = 0;
            for (o = 0; o < 6 && strcmp(ops[o], b); o++);
            s = napr_db_cursor_get(cur[atoi(a)], strchr(miss, 'k') ? NULL : &k, strchr(miss, 'v') ? NULL : &v, (napr_db_cursor_op_t) o);
            printf("%s", name(s));
            if (s == APR_SUCCESS) {
                printf(" ");
                if (!strchr(miss, 'k'))
                    hex(&k);
                printf("=");
                if (!strchr(miss, 'v'))
                    pv(&v);
            }
            printf("\n");
            free(in.data);
        }
        else if (!strcmp(op, "dump"))
            dump(txn(a), 0);
        else if (!strcmp(op, "rdump"))
            dump(txn(a), 1);
        else if (!strcmp(op, "watch")) {
            iolog_watch(a);
            printf("OK\n");
        }
        else if (!strcmp(op, "log")) {
            iolog_start(a);
            iolog_event('s');   /* what is there now counts as durable */
            printf("OK\n");
        }
        else if (!strcmp(op, "mark")) { /* mark c: a marker event in the log */
            iolog_event(a[0]);
            printf("OK\n");
        }
        else if (!strcmp(op, "fault")) {        /* fault kind nth errno short,sticky */
            iolog_fault(a[0], atol(b), atoi(c), strchr(d, 's') != NULL, strchr(d, 'k') != NULL);
            printf("OK\n");
        }
        else if (!strcmp(op, "nofault")) {
            printf("%ld\n", iolog_fired());
            iolog_fault(0, 0, 0, 0, 0);
        }
        else if (!strcmp(op, "size")) { /* size path */
            apr_finfo_t fi;
            apr_pool_t *p;
            apr_pool_create(&p, root_pool);
            s = apr_stat(&fi, a, APR_FINFO_SIZE, p);
            printf("%s %lld\n", name(s), s == APR_SUCCESS ? (long long) fi.size : -1LL);
            apr_pool_destroy(p);
        }
        else {
            printf("?\n");
        }
    }
    fflush(stdout);
    _exit(0);
}
