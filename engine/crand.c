/* libc rand() with given values, preloaded into the replay server (crandlib.py) */
#include <stdlib.h>

static int *table;
static long count, next_;

void verif_rand_set(int *values, long n) {
    table = values;
    count = n;
    next_ = 0;
}

int rand(void) {
    if (table)
        return next_ < count ? table[next_++] : 0;
    return (int) random();
}
