/* Drives the file comparison, hashing and archive functions from a script on standard input, one result line per operation.
 *
 * c SIZE EXCESS FILE1 FILE2     status and 0/1 (equal/different)
 * s SIZE EXCESS FILE            status and hash
 * u ARCHIVE<tab>MEMBER          path of the extracted file or "none"
 * d                             number of open descriptors
 */
#include "ft_archive.h"
#include "ft_file.h"
#include <apr_general.h>
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int main(int argc, char **argv)
{
    static char line[65536], a[20000], b[20000];
    apr_pool_t *pool, *sub;
    apr_initialize();
    apr_pool_create(&pool, NULL);
    while (fgets(line, sizeof(line), stdin)) {
        long long size, excess;
        line[strcspn(line, "\n")] = 0;
        apr_pool_create(&sub, pool);
        if (line[0] == 'c' && sscanf(line + 1, "%lld %lld %s %s", &size, &excess, a, b) == 4) {
            int res = 424242;
            apr_status_t st = filecmp(sub, a, b, size, excess, &res);
            printf("%d %d\n", st, st ? -1 : res == 424242 ? 7 : res != 0);
        }
        else if (line[0] == 's' && sscanf(line + 1, "%lld %lld %s", &size, &excess, a) == 3) {
            ft_hash_t h;
            apr_status_t st;
            memset(&h, 0x5a, sizeof(h));
            st = checksum_file(a, size, excess, &h, sub);
            if (st)
                printf("%d -\n", st);
            else
                printf("0 %016llx%016llx\n", (unsigned long long) h.high64, (unsigned long long) h.low64);
        }
        else if (line[0] == 'u') {
            char *tab = strchr(line, '\t'), *out;
            ft_file_t *f;
            *tab++ = 0;
            f = ft_file_make(sub, line + 2, tab);
            out = ft_archive_untar_file(f, sub);
            printf("%s\n", out ? out : "none");
        }
        else if (line[0] == 'd') {
            DIR *d = opendir("/proc/self/fd");
            int n = 0;
            while (readdir(d))
                n++;
            closedir(d);
            printf("%d\n", n);
        }
        fflush(stdout);
        apr_pool_destroy(sub);
    }
    return 0;
}
