#include <stdlib.h>
long sim_left = -1;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n)
{
    if (sim_left > 0 && --sim_left == 0)
        return NULL;
    return __real_malloc(n);
}
void fail_at(int k) { sim_left = k; }
