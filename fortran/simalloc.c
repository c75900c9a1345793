/* Allocation seam of the simulations.  Every allocation made by the
 * compiled Fortran (linked with -Wl,--wrap=malloc,...) passes through here, so
 * the bytes it has in use are known exactly, and a run script can arm a failure
 * of the k-th one from now. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);
static long fail_at = -1, fired = 0, live = 0;

#define SLOTS (1u << 19)
static struct { void *p; size_t n; } tab[SLOTS];
static unsigned where(void *p)
{
    return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (SLOTS - 1);
}
static int lock;
static void enter(void) { while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) ; }
static void leave(void) { __atomic_store_n(&lock, 0, __ATOMIC_RELEASE); }
static void note(void *p, size_t n)
{
    unsigned i, k;
    if (!p) return;
    enter();
    for (i = where(p), k = 0; tab[i].p && k < SLOTS; k++) i = (i + 1) & (SLOTS - 1);
    tab[i].p = p; tab[i].n = n; live += (long)n;
    leave();
}
static void forget(void *p)
{
    unsigned i, j, h;
    if (!p) return;
    enter();
    for (i = where(p); tab[i].p && tab[i].p != p; ) i = (i + 1) & (SLOTS - 1);
    if (tab[i].p) {
        live -= (long)tab[i].n;
        tab[i].p = NULL;
        for (j = (i + 1) & (SLOTS - 1); tab[j].p; j = (j + 1) & (SLOTS - 1)) {
            h = where(tab[j].p);            /* close the gap */
            if (((j - h) & (SLOTS - 1)) >= ((j - i) & (SLOTS - 1))) {
                tab[i] = tab[j]; tab[j].p = NULL; i = j;
            }
        }
    }
    leave();
}
void free(void *p) { forget(p); __libc_free(p); }

static int should_fail(void)
{
    if (fail_at > 0 && --fail_at == 0) {
        fail_at = -1;
        fired++;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
/* Only what the compiled Fortran allocates counts as in use: the run-time
 * library's own buffers come and go as it likes */
void *__wrap_malloc(size_t n)
{
    void *p = should_fail() ? NULL : __libc_malloc(n);
    note(p, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    void *p = should_fail() ? NULL : __libc_calloc(a, b);
    note(p, a * b);
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    void *p;
    if (should_fail()) return NULL;
    forget(q);
    p = __libc_realloc(q, n);
    note(p, n);
    return p;
}
void sim_fail_at(long k) { fail_at = k; fired = 0; }
long sim_fired(void) { return fired; }
/* bytes allocated and not yet given back */
long sim_live(void) { return live; }
