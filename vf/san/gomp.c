/* The few entry points of libgomp the sources need, on pthreads, so that ThreadSanitizer sees all synchronisation. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdlib.h>
#include <time.h>
#include <omp.h>

static int wanted = 4;
static __thread int me = 0, team = 1;
static pthread_barrier_t barrier;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;

struct job { void (*fn)(void *); void *data; int id, n; };

static void *work(void *p)
{
	struct job *j = (struct job *) p;
	me = j->id;
	team = j->n;
	j->fn(j->data);
	return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags)
{
	(void) flags;
	int n = num_threads ? (int) num_threads : wanted;
	if (team > 1) n = 1;
	pthread_t t[64];
	struct job j[64];
	if (n > 64) n = 64;
	int oldteam = team, oldme = me;
	if (n > 1) pthread_barrier_init(&barrier, NULL, n);
	for (int i=1;i<n;i++) {
		j[i] = (struct job) {fn, data, i, n};
		pthread_create(&t[i], NULL, work, &j[i]);
	}
	me = 0;
	team = n;
	fn(data);
	for (int i=1;i<n;i++) pthread_join(t[i], NULL);
	if (n > 1) pthread_barrier_destroy(&barrier);
	team = oldteam;
	me = oldme;
}

void GOMP_barrier(void) { if (team > 1) pthread_barrier_wait(&barrier); }
void GOMP_critical_start(void) { pthread_mutex_lock(&mutex); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&mutex); }
static pthread_mutex_t named = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_name_start(void **p) { (void) p; pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void **p) { (void) p; pthread_mutex_unlock(&named); }
static pthread_mutex_t atomic_ = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomic_); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomic_); }

/* loops handed out piece by piece: dynamic, guided */
static pthread_mutex_t loop = PTHREAD_MUTEX_INITIALIZER;
static unsigned long long at, until, step, piece;
static int inloop = 0;
static bool next_(unsigned long long *a, unsigned long long *b)
{
	pthread_mutex_lock(&loop);
	bool ok = at < until;
	if (ok) {
		*a = at;
		unsigned long long e = at + piece*step;
		*b = e < until ? e : until;
		at = *b;
	}
	pthread_mutex_unlock(&loop);
	return ok;
}
static bool start_(unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b)
{
	pthread_mutex_lock(&loop);
	if (inloop == 0) { at = s; until = e; step = i; piece = c ? c : 1; }
	inloop++;
	pthread_mutex_unlock(&loop);
	return next_(a, b);
}
#define ULL unsigned long long
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ULL s, ULL e, ULL i, ULL c, ULL *a, ULL *b) { (void) up; return start_(s, e, i, c, a, b); }
bool GOMP_loop_ull_dynamic_start(bool up, ULL s, ULL e, ULL i, ULL c, ULL *a, ULL *b) { (void) up; return start_(s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ULL s, ULL e, ULL i, ULL c, ULL *a, ULL *b) { (void) up; return start_(s, e, i, c, a, b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ULL *a, ULL *b) { return next_(a, b); }
bool GOMP_loop_ull_dynamic_next(ULL *a, ULL *b) { return next_(a, b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ULL *a, ULL *b) { return next_(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, (ULL *) a, (ULL *) b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, (ULL *) a, (ULL *) b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return next_((ULL *) a, (ULL *) b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return next_((ULL *) a, (ULL *) b); }
static void end_(void)
{
	pthread_mutex_lock(&loop);
	inloop--;
	pthread_mutex_unlock(&loop);
}
void GOMP_loop_end(void) { if (team > 1) pthread_barrier_wait(&barrier); end_(); if (team > 1) pthread_barrier_wait(&barrier); }
void GOMP_loop_end_nowait(void) { GOMP_loop_end(); }
bool GOMP_single_start(void) { return me == 0; }

int omp_get_thread_num(void) { return me; }
int omp_get_num_threads(void) { return team; }
int omp_get_max_threads(void) { return wanted; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team > 1; }
void omp_set_num_threads(int n) { if (n > 0) wanted = n; }
void omp_set_dynamic(int d) { (void) d; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
