// A small OpenMP runtime over pthreads, so that ThreadSanitizer sees exactly the synchronisation OpenMP promises: thread start, thread
// end and named critical sections. Loop counters are raw atomics hidden from it. VERIF_DELAY injects delays, VERIF_TRACE names a file to
// which a hash of the loop-iteration-to-thread assignment and of the order of critical sections is written.
#include <pthread.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#define RAW __attribute__((no_sanitize("thread"), noinline))
typedef unsigned long long ull;
namespace { struct Team { int n; long next, end, incr, chunk; ull unext, uend, uincr, uchunk; bool up; bool init; void (*fn)(void*); void* data; };
Team serial; Team* team = &serial; uint64_t trace = 1469598103934665603ull, nev; __thread int me; __thread uint64_t rs; int used[64];
RAW uint64_t Rand() { static int on = -1; static uint64_t seed; if (on < 0) { const char* e = getenv("VERIF_DELAY"); seed = e ? strtoull(e, 0, 10) : 0; on = e != 0; } if (!on) return 0; if (!rs) rs = seed * 1000003 + me * 7919 + 1; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs | 1; }
RAW void Delay(int odds) { uint64_t v = Rand(); if (v && (v >> 8) % odds == 0) usleep((v >> 20) % 300); }
RAW void Note(uint64_t x) { uint64_t o = __atomic_load_n(&trace, __ATOMIC_RELAXED), w; do w = (o ^ x) * 1099511628211ull; while (!__atomic_compare_exchange_n(&trace, &o, w, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)); __atomic_fetch_add(&nev, 1, __ATOMIC_RELAXED); }
RAW bool NextUll(ull* s, ull* e) { Team* t = team; ull a = __atomic_fetch_add(&t->unext, t->uincr * t->uchunk, __ATOMIC_RELAXED); if (t->up ? a >= t->uend : a <= t->uend) return false; ull b = a + t->uincr * t->uchunk; if (t->up ? b > t->uend : b < t->uend) b = t->uend; *s = a; *e = b; used[me & 63] = 1; Note(a * 64 + me); return true; }
RAW bool NextLong(long* s, long* e) { Team* t = team; long a = __atomic_fetch_add(&t->next, t->incr * t->chunk, __ATOMIC_RELAXED); if (t->incr > 0 ? a >= t->end : a <= t->end) return false; long b = a + t->incr * t->chunk; if (t->incr > 0 ? b > t->end : b < t->end) b = t->end; *s = a; *e = b; used[me & 63] = 1; Note(a * 64 + me); return true; }
struct Start { Team* t; int id; };
RAW void* Run(void* p) { Start* s = (Start*)p; me = s->id; Delay(2); s->t->fn(s->t->data); return 0; }
RAW void Finish() { const char* f = getenv("VERIF_TRACE"); if (!f) return; FILE* o = fopen(f, "w"); int k = 0; for (int i = 0; i < 64; ++i) k += used[i]; if (o) { fprintf(o, "%llx %llu %d\n", (ull)trace, (ull)nev, k); fclose(o); } }
RAW void Parallel(Team* t, unsigned n) { static bool reg; if (!reg) { reg = true; atexit(Finish); } t->n = n ? n : 4; if (t->n > 32) t->n = 32; team = t; pthread_t th[32]; Start st[32]; for (int i = 1; i < t->n; ++i) { st[i].t = t; st[i].id = i; pthread_create(&th[i], 0, Run, &st[i]); } st[0].t = t; st[0].id = 0; Run(&st[0]); for (int i = 1; i < t->n; ++i) pthread_join(th[i], 0); team = &serial; me = 0; }
pthread_mutex_t locks[64]; void* names[64]; pthread_mutex_t plain = PTHREAD_MUTEX_INITIALIZER; }
extern "C" {
RAW int omp_get_num_threads() { return team->n ? team->n : 1; }
RAW int omp_get_thread_num() { return me; }
RAW int omp_get_max_threads() { return 4; }
RAW void omp_set_num_threads(int) {}
RAW void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { Team t = {}; t.fn = fn; t.data = data; Parallel(&t, n); }
RAW static pthread_mutex_t* Named(void** p) { for (int i = 0; i < 64; ++i) { void* x = __atomic_load_n(&names[i], __ATOMIC_ACQUIRE); if (!x) { void* want = 0; if (__atomic_compare_exchange_n(&names[i], &want, (void*)p, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) x = p; else x = want; } if (x == p) return &locks[i]; } return &plain; }
RAW void GOMP_critical_name_start(void** p) { Delay(200); pthread_mutex_lock(Named(p)); Note(1000003 + me); }
RAW void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(Named(p)); Delay(400); }
RAW void GOMP_critical_start() { Delay(200); pthread_mutex_lock(&plain); Note(1000003 + me); }
RAW void GOMP_critical_end() { pthread_mutex_unlock(&plain); }
RAW static bool StartUll(bool up, ull s, ull e, ull inc, ull ch, ull* a, ull* b) { Team* t = team; if (!__atomic_exchange_n(&t->init, true, __ATOMIC_ACQ_REL)) { t->up = up; t->uend = e; t->uincr = inc; t->uchunk = ch; __atomic_store_n(&t->unext, s, __ATOMIC_RELAXED); __atomic_store_n(&t->chunk, 1, __ATOMIC_RELEASE); } while (!__atomic_load_n(&t->chunk, __ATOMIC_ACQUIRE)) usleep(10); Delay(2); return NextUll(a, b); }
RAW static bool StartLong(long s, long e, long inc, long ch, long* a, long* b) { Team* t = team; if (!__atomic_exchange_n(&t->init, true, __ATOMIC_ACQ_REL)) { t->end = e; t->incr = inc; __atomic_store_n(&t->next, s, __ATOMIC_RELAXED); __atomic_store_n(&t->chunk, ch, __ATOMIC_RELEASE); } while (!__atomic_load_n(&t->chunk, __ATOMIC_ACQUIRE)) usleep(10); Delay(2); return NextLong(a, b); }
RAW bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return StartUll(up, s, e, i, c, a, b); }
RAW bool GOMP_loop_ull_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return StartUll(up, s, e, i, c, a, b); }
RAW bool GOMP_loop_ull_guided_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return StartUll(up, s, e, i, c, a, b); }
RAW bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return StartUll(up, s, e, i, c, a, b); }
RAW bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull* a, ull* b) { Delay(2); return NextUll(a, b); }
RAW bool GOMP_loop_ull_dynamic_next(ull* a, ull* b) { Delay(2); return NextUll(a, b); }
RAW bool GOMP_loop_ull_guided_next(ull* a, ull* b) { Delay(2); return NextUll(a, b); }
RAW bool GOMP_loop_ull_nonmonotonic_guided_next(ull* a, ull* b) { Delay(2); return NextUll(a, b); }
RAW bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return StartLong(s, e, i, c, a, b); }
RAW bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return StartLong(s, e, i, c, a, b); }
RAW bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { Delay(2); return NextLong(a, b); }
RAW bool GOMP_loop_dynamic_next(long* a, long* b) { Delay(2); return NextLong(a, b); }
RAW void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { Team t = {}; t.fn = fn; t.data = d; t.next = s; t.end = e; t.incr = i; t.chunk = c; t.init = true; Parallel(&t, n); }
RAW void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, d, n, s, e, i, c, f); }
RAW void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_nonmonotonic_dynamic(fn, d, n, s, e, i, c, f); }
RAW void GOMP_loop_end() {}
RAW void GOMP_loop_end_nowait() {}
RAW void GOMP_barrier() { fprintf(stderr, "gompshim: barriers are not provided\n"); _exit(77); }
}
struct InitLocks { InitLocks() { for (auto& m : locks) pthread_mutex_init(&m, 0); } } initlocks __attribute__((init_priority(101)));
