/* A small libgomp on pthreads for race detection. It creates no ordering that OpenMP does not promise:
   a SINGLE NOWAIT goes to thread (its number mod the team size), so that every pair of neighbouring
   blocks is run by different threads in every run. SHIM_THREADS sets the team size. */
#include <pthread.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>

typedef struct {
    int size;
    pthread_barrier_t bar;
    pthread_mutex_t lock;
    long next, end, incr, chunk; /* dynamic loops */
    int sections, section;
    int loops; /* work shares opened so far */
} team_t;

static __thread int me = 0, shares = 0, singles = 0;
static __thread team_t *team = 0;
static pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomic = PTHREAD_MUTEX_INITIALIZER;

static int threads(void) {
    const char *s = getenv("SHIM_THREADS");
    int n = s ? atoi(s) : 4;
    return n > 0 ? n : 1;
}

typedef struct { void (*fn)(void *); void *data; int id; team_t *t; } job_t;

static void *work(void *a) {
    job_t *j = a;
    me = j->id;
    team = j->t;
    shares = singles = 0;
    j->fn(j->data);
    return 0;
}

static void run(void (*fn)(void *), void *data, unsigned want, team_t *t) {
    if (team) { fn(data); return; } /* nested: a team of one */
    t->size = want ? (int)want : threads();
    pthread_barrier_init(&t->bar, 0, t->size);
    pthread_mutex_init(&t->lock, 0);
    pthread_t id[256];
    job_t job[256];
    if (t->size > 256) t->size = 256;
    for (int i = 0; i < t->size; i++) {
        job[i] = (job_t){fn, data, i, t};
        if (pthread_create(&id[i], 0, work, &job[i])) { fprintf(stderr, "shim: no thread\n"); exit(94); }
    }
    for (int i = 0; i < t->size; i++) pthread_join(id[i], 0);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { team_t t = {0}; run(fn, data, n, &t); }
int omp_get_num_threads(void) { return team ? team->size : 1; }
int omp_get_thread_num(void) { return team ? me : 0; }
int omp_get_max_threads(void) { return threads(); }
int omp_get_num_threads_(void) { return omp_get_num_threads(); }
int omp_get_thread_num_(void) { return omp_get_thread_num(); }
int omp_get_max_threads_(void) { return threads(); }
void omp_set_num_threads_(int *n) { (void)n; }
bool omp_in_parallel(void) { return team != 0; }
bool GOMP_single_start(void) { return !team || (singles++ % team->size) == me; }
void GOMP_barrier(void) { if (team) pthread_barrier_wait(&team->bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&critical); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&critical); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&critical); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomic); }

/* dynamic and guided loops: one share at a time per team */
static bool grab(long *s, long *e) {
    bool got = false;
    pthread_mutex_lock(&team->lock);
    long left = team->incr > 0 ? team->end - team->next : team->next - team->end;
    if (left > 0) {
        long step = team->chunk * team->incr;
        *s = team->next;
        *e = team->next + step;
        if ((team->incr > 0 && *e > team->end) || (team->incr < 0 && *e < team->end)) *e = team->end;
        team->next = *e;
        got = true;
    }
    pthread_mutex_unlock(&team->lock);
    return got;
}
static bool start(long a, long b, long incr, long chunk, long *s, long *e) {
    shares++;
    pthread_mutex_lock(&team->lock);
    if (team->loops < shares) {
        team->loops = shares;
        team->next = a; team->end = b; team->incr = incr; team->chunk = chunk > 0 ? chunk : 1;
    }
    pthread_mutex_unlock(&team->lock);
    return grab(s, e);
}
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); } \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return grab(s, e); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { \
        team_t t = {0}; t.next = a; t.end = b; t.incr = i; t.chunk = c > 0 ? c : 1; t.loops = 1 << 30; run(fn, d, n, &t); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define RLOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e); } \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return grab(s, e); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { \
        team_t t = {0}; t.next = a; t.end = b; t.incr = i; t.chunk = 1; t.loops = 1 << 30; run(fn, d, n, &t); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

static unsigned section(void) {
    pthread_mutex_lock(&team->lock);
    unsigned r = team->section < team->sections ? ++team->section : 0;
    pthread_mutex_unlock(&team->lock);
    return r;
}
unsigned GOMP_sections_start(unsigned n) {
    shares++;
    pthread_mutex_lock(&team->lock);
    if (team->loops < shares) { team->loops = shares; team->sections = n; team->section = 0; }
    pthread_mutex_unlock(&team->lock);
    return section();
}
unsigned GOMP_sections_next(void) { return section(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned fl) {
    team_t t = {0};
    t.sections = count;
    t.loops = 1 << 30;
    run(fn, d, n, &t);
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
