/* imgdrv make SEED WIDTH HEIGHT NOISE FORMAT FILE ...   (groups of six)    writes images
 * imgdrv dist FILE...                                    prints "i j distance" for every pair of readable images
 */
#include <gd.h>
#include <puzzle.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t s;
static uint32_t rnd(void)
{
    s ^= s << 13;
    s ^= s >> 17;
    s ^= s << 5;
    return s;
}

static int clampc(int v)
{
    return v < 0 ? 0 : v > 255 ? 255 : v;
}

static void make(unsigned seed, int w, int h, int noise, const char *fmt, const char *path)
{
    gdImagePtr im = gdImageCreateTrueColor(w, h);
    int cells[8][8], x, y;
    FILE *f;
    s = seed * 2654435761u + 12345u;
    if (!s)
        s = 1;
    for (x = 0; x < 20; x++)
        rnd();
    for (y = 0; y < 8; y++)
        for (x = 0; x < 8; x++)
            cells[y][x] = (int) (rnd() >> 8) % 256;
    s = (seed + 77u * (unsigned) (noise + w + h)) | 1u;
    for (y = 0; y < h; y++)
        for (x = 0; x < w; x++) {
            int v = cells[y * 8 / h][x * 8 / w] + (noise ? (int) (rnd() >> 9) % (2 * noise + 1) - noise : 0);
            v = clampc(v);
            gdImageSetPixel(im, x, y, gdTrueColor(v, v, clampc(v + 5)));
        }
    f = fopen(path, "wb");
    if (fmt[0] == 'p')
        gdImagePng(im, f);
    else if (fmt[0] == 'j')
        gdImageJpeg(im, f, 85);
    else {
        gdImageTrueColorToPalette(im, 0, 200);
        gdImageGif(im, f);
    }
    fclose(f);
    gdImageDestroy(im);
}

int main(int argc, char **argv)
{
    int i, j;
    if (argc > 1 && !strcmp(argv[1], "make")) {
        for (i = 2; i + 5 < argc; i += 6)
            make((unsigned) strtoul(argv[i], NULL, 10), atoi(argv[i + 1]), atoi(argv[i + 2]), atoi(argv[i + 3]), argv[i + 4], argv[i + 5]);
        return 0;
    }
    if (argc > 1 && !strcmp(argv[1], "dist")) {
        PuzzleContext c;
        int n = argc - 2;
        PuzzleCvec *v = calloc((size_t) n + 1, sizeof(*v));
        char *ok = calloc((size_t) n + 1, 1);
        puzzle_init_context(&c);
        puzzle_set_max_width(&c, 5000);
        puzzle_set_max_height(&c, 5000);
        puzzle_set_lambdas(&c, 13);
        for (i = 0; i < n; i++) {
            puzzle_init_cvec(&c, &v[i]);
            ok[i] = puzzle_fill_cvec_from_file(&c, &v[i], argv[i + 2]) == 0;
            if (!ok[i])
                printf("bad %d\n", i);
        }
        for (i = 0; i < n; i++)
            for (j = 0; j < n; j++)
                if (i != j && ok[i] && ok[j])
                    printf("%d %d %.17g\n", i, j, puzzle_vector_normalized_distance(&c, &v[i], &v[j], 0));
        return 0;
    }
    return 2;
}
