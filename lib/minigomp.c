/* A minimal stand-in for libgomp on plain pthreads, for ThreadSanitizer runs: TSan intercepts
 * pthread_create/pthread_join and so sees the fork and join edges of every parallel region.
 * Covers what gcc emits for "#pragma omp parallel" and "parallel for" with static, dynamic and
 * guided schedules, barriers, critical/atomic/single.  MINIGOMP_THREADS overrides the team size,
 * MINIGOMP_JITTER=<us> delays the start of each member by a pseudo-random time. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdbool.h>
#include <unistd.h>
#include <stdio.h>

typedef struct team team_t;
struct team {
    int n; pthread_barrier_t bar; pthread_mutex_t mu;
    long next, end, incr, chunk; int started; int pre; int gen; int single_gen;
};
static __thread int tid = 0, nested = 0, ws_gen = 0, single_gen = 0;
static __thread team_t* cur = NULL;
static int nthreads_icv = 4;
static unsigned regions = 0, members = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;

unsigned minigomp_regions(void) { return __atomic_load_n(&regions, __ATOMIC_RELAXED); }
unsigned minigomp_members(void) { return __atomic_load_n(&members, __ATOMIC_RELAXED); }

void omp_set_num_threads(int n) { if(n > 0) __atomic_store_n(&nthreads_icv, n, __ATOMIC_RELAXED); }
void omp_set_dynamic(int d) { (void) d; }
void omp_set_nested(int d) { (void) d; }
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return cur ? cur->n : 1; }
int omp_get_max_threads(void) { return __atomic_load_n(&nthreads_icv, __ATOMIC_RELAXED); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return cur != NULL; }
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return 0.0; }

typedef struct { void (*fn)(void*); void* data; int id; team_t* t; unsigned delay; } member_t;

static void run_member(member_t* m)
{
    team_t* oc = cur; int ot = tid; int on = nested, og = ws_gen, os = single_gen;
    cur = m->t; tid = m->id; nested = 1; ws_gen = m->t->pre; single_gen = 0;
    if(m->delay) usleep(m->delay);
    m->fn(m->data);
    cur = oc; tid = ot; nested = on; ws_gen = og; single_gen = os;
}
static void* entry(void* p) { run_member((member_t*) p); return NULL; }

static void par(void (*fn)(void*), void* data, unsigned num_threads, const long* ws)
{
    const char* e = getenv("MINIGOMP_THREADS");
    const char* j = getenv("MINIGOMP_JITTER");
    int jit = j ? atoi(j) : 0;
    int n = num_threads ? (int) num_threads : omp_get_max_threads();
    if(e && !num_threads) n = atoi(e);
    if(nested) n = 1;
    if(n < 1) n = 1;
    unsigned r = __atomic_add_fetch(&regions, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&members, (unsigned) n, __ATOMIC_RELAXED);
    team_t t = { .n = n, .started = 0 };
    if(ws) { t.gen = 1; t.pre = 1; t.next = ws[0]; t.end = ws[1]; t.incr = ws[2]; t.chunk = ws[3] > 0 ? ws[3] : 1; }
    pthread_barrier_init(&t.bar, NULL, n);
    pthread_mutex_init(&t.mu, NULL);
    member_t* m = (member_t*) malloc(sizeof(member_t) * n);
    pthread_t* th = (pthread_t*) malloc(sizeof(pthread_t) * n);
    for(int i = 0; i < n; i++)
    {
        m[i] = (member_t){ fn, data, i, &t, 0 };
        if(jit) m[i].delay = (unsigned) ((r * 2654435761u + i * 40503u) >> 7) % (unsigned) jit;
    }
    for(int i = 1; i < n; i++) pthread_create(&th[i], NULL, entry, &m[i]);
    run_member(&m[0]);
    for(int i = 1; i < n; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&t.bar);
    pthread_mutex_destroy(&t.mu);
    free(m); free(th);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned flags)
{ (void) flags; par(fn, data, num_threads, NULL); }
void GOMP_barrier(void) { if(cur) pthread_barrier_wait(&cur->bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p) { (void) p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void** p) { (void) p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void)
{
    if(!cur) return true;
    bool mine; single_gen++;
    pthread_mutex_lock(&cur->mu);
    mine = cur->single_gen < single_gen;
    if(mine) cur->single_gen = single_gen;
    pthread_mutex_unlock(&cur->mu);
    return mine;
}
static bool grab(long* s, long* e)
{
    team_t* t = cur; bool ok = false;
    pthread_mutex_lock(&t->mu);
    long left = t->incr > 0 ? t->end - t->next : t->next - t->end;
    if(left > 0)
    {
        long step = t->chunk * t->incr;
        *s = t->next; *e = t->next + step;
        if(t->incr > 0 ? *e > t->end : *e < t->end) *e = t->end;
        t->next = *e; ok = true;
    }
    pthread_mutex_unlock(&t->mu);
    return ok;
}
static bool start(long s, long e, long inc, long chunk, long* is, long* ie)
{
    team_t* t = cur;
    ws_gen++;
    pthread_mutex_lock(&t->mu);
    if(t->gen < ws_gen) { t->gen = ws_gen; t->next = s; t->end = e; t->incr = inc; t->chunk = chunk > 0 ? chunk : 1; }
    pthread_mutex_unlock(&t->mu);
    return grab(is, ie);
}
#define LOOP(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } \
bool GOMP_loop_##name##_next(long* a, long* b) { return grab(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
static bool rt_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return rt_start(s, e, i, a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return grab(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return rt_start(s, e, i, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return grab(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
/* combined parallel + dynamic loops: the work share is set up before the team starts */
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) \
{ (void) f; long ws[4] = { s, e, i, c }; par(fn, d, n, ws); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) \
{ (void) f; long ws[4] = { s, e, i, 1 }; par(fn, d, n, ws); }
PLOOPR(runtime) PLOOPR(maybe_nonmonotonic_runtime)
