/* Task seam: simulated threads of the host.  Each task is a real thread, but
 * only the holder of the baton runs.  Generated code is compiled with
 * -fsanitize=thread and linked with the entry points below instead of the
 * sanitizer, so every one of its memory accesses is a yield point, as are
 * entry to and exit from a scheme stub.  The schedule is a list of pairs: after
 * so many yield points, give the baton to the so-manieth task still alive.
 * One schedule is one exact interleaving. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#define MAXT 16
#define MAXS 8192
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int running = 0, ntask = 0, nsched = 0, pos = 0;
static int sched[MAXS], done[MAXT + 1];
static long points = 0, switches = 0, gap = 0;
static unsigned long hash = 0;
static __thread int me = 0;
extern void sim_task_body(int);
int sim_task(void) { return me; }
void sim_sched_reset(void) { nsched = 0; pos = 0; }
void sim_sched_add(int v) { if (nsched < MAXS) sched[nsched++] = v; }
long sim_points(void) { return points; }
long sim_switches(void) { return switches; }
long sim_hash(void) { return (long)(hash & 0x7fffffff); }
static int pick(int c)
{
    int alive[MAXT], n = 0, i;
    for (i = 1; i <= ntask; i++) if (!done[i]) alive[n++] = i;
    if (n == 0) return 0;
    return alive[(c < 0 ? -c : c) % n];
}
static void next_gap(void)
{
    gap = pos + 1 < nsched ? sched[pos] : -1;
}
static void give(int to)
{
    hash = hash * 1000003UL + (unsigned long)(points * 31 + to);
    switches++;
    running = to;
    pthread_cond_broadcast(&cv);
}
static void point(void)
{
    if (me == 0 || ntask == 0) return;
    points++;
    if (gap < 0 || --gap > 0) return;
    pthread_mutex_lock(&mu);
    int to = pick(sched[pos + 1]);
    pos += 2;
    next_gap();
    if (to != me) {
        give(to);
        while (running != me) pthread_cond_wait(&cv, &mu);
    }
    pthread_mutex_unlock(&mu);
}
void sim_yield(int where) { (void)where; point(); }
static void *body(void *arg)
{
    me = (int)(long)arg;
    pthread_mutex_lock(&mu);
    while (running != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    sim_task_body(me);
    pthread_mutex_lock(&mu);
    done[me] = 1;
    give(pick(pos + 1 < nsched ? sched[pos + 1] : 0));
    pthread_mutex_unlock(&mu);
    return NULL;
}
void sim_run_tasks(int n)
{
    pthread_t t[MAXT + 1];
    int i;
    ntask = n;
    running = -1;
    points = switches = 0;
    hash = 7;
    next_gap();
    for (i = 1; i <= n; i++) done[i] = 0;
    for (i = 1; i <= n; i++)
        if (pthread_create(&t[i], NULL, body, (void *)(long)i)) { perror("thread"); exit(99); }
    pthread_mutex_lock(&mu);
    give(pick(pos + 1 < nsched ? sched[pos + 1] : 0));
    pthread_mutex_unlock(&mu);
    for (i = 1; i <= n; i++) pthread_join(t[i], NULL);
    ntask = 0;
    running = 0;
}
/* What the generated code asks OpenMP: task 1 is the master thread */
int omp_get_thread_num_(void) { return me > 0 ? me - 1 : 0; }
int omp_get_num_threads_(void) { return ntask > 0 ? ntask : 1; }
int omp_get_max_threads_(void) { return MAXT; }
int omp_in_parallel_(void) { return ntask > 1; }
int omp_get_level_(void) { return ntask > 1; }
/* Entry points which -fsanitize=thread calls */
#define ACCESS(name) void name(void *p) { (void)p; point(); }
#define SIZES(op) ACCESS(__tsan_##op##1) ACCESS(__tsan_##op##2) \
    ACCESS(__tsan_##op##4) ACCESS(__tsan_##op##8) ACCESS(__tsan_##op##16)
SIZES(read) SIZES(write) SIZES(unaligned_read) SIZES(unaligned_write)
SIZES(volatile_read) SIZES(volatile_write)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, long n) { (void)p; (void)n; point(); }
void __tsan_write_range(void *p, long n) { (void)p; (void)n; point(); }
