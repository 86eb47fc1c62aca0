/* Keeps only some bits of every 128-bit hash ("WEAKHASH=<mask of the low half>,<mask of the high half>"), so that files
 * with the same hash, or with one half of it in common, but different contents are common. */
#include <stdio.h>
#include <stdlib.h>
#include "xxhash.h"

static XXH128_hash_t weaken(XXH128_hash_t h)
{
    unsigned long long low = ~0ULL, high = ~0ULL;
    const char *e = getenv("WEAKHASH");
    if (e && sscanf(e, "%llu,%llu", &low, &high) == 2) {
        h.low64 &= low;
        h.high64 &= high;
    }
    return h;
}

XXH128_hash_t __real_XXH3_128bits(const void *data, size_t len);
XXH128_hash_t __wrap_XXH3_128bits(const void *data, size_t len)
{
    return weaken(__real_XXH3_128bits(data, len));
}

XXH128_hash_t __real_XXH3_128bits_digest(const XXH3_state_t *state);
XXH128_hash_t __wrap_XXH3_128bits_digest(const XXH3_state_t *state)
{
    return weaken(__real_XXH3_128bits_digest(state));
}
