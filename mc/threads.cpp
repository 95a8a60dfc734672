#include "threads.hpp"
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
extern "C" { extern char __start_nl_data[] __attribute__((weak)), __stop_nl_data[] __attribute__((weak));
void *__asan_region_is_poisoned(void *, size_t); }
namespace threads {
struct T { int id; sem_t go; pthread_t th; const std::function<void()> *body; bool done; Counts c; };
static std::vector<T *> ts, pool;                // those of this execution; threads are kept for later ones
static int poolPid;
static std::vector<Leg> legs;
static size_t leg; static long left;
static sem_t over;
static thread_local T *self;
static thread_local int nolock;                  // > 0: holds a lock, no switch
bool poisoned;
static char *image;
static struct Init { Init() { size_t n = (size_t)(__stop_nl_data - __start_nl_data); image = (char *)malloc(n + 1); if(n) memcpy(image, __start_nl_data, n); } } init;
void resetStatic() { size_t n = (size_t)(__stop_nl_data - __start_nl_data); if(n) memcpy(__start_nl_data, image, n); }
// the next leg whose thread can run; nullptr: everything is done
static T *next() {
    while(leg < legs.size()) { T *t = ts[(size_t)legs[leg].thread]; if(!t->done) { left = legs[leg].points; if(left != 0) return t; } leg++; }
    for(auto *t : ts) if(!t->done) { left = -1; return t; }
    return nullptr;
}
static void hand(T *me) {
    T *n = next();
    if(n == me) return;
    if(!n) { sem_post(&over); return; }
    bool done = me && me->done;
    sem_post(&n->go);
    if(me && !done) while(sem_wait(&me->go)) {}
}
static inline void point(Kind k) {
    T *t = self;
    if(!t || nolock) return;
    t->c.n[k]++;
    if(left > 0 && leg < legs.size() && (legs[leg].kind == k || (legs[leg].kind == BLOCK && k == STATIC)) && --left == 0) { leg++; hand(t); }
}
static void *entry(void *p) {
    T *t = (T *)p;
    for(;;) {
        while(sem_wait(&t->go)) {}
        self = t;
        (*t->body)();
        self = nullptr;
        t->done = true;
        hand(t);
    }
    return nullptr;
}
void run(const std::vector<std::function<void()>> &bodies, const std::vector<Leg> &schedule, std::vector<Counts> *counts) {
    resetStatic();
    poisoned = false;
    legs = schedule; leg = 0;
    if(poolPid != getpid()) { pool.clear(); poolPid = getpid(); sem_init(&over, 0, 0); }   // threads do not survive a fork
    while(pool.size() < bodies.size()) {
        T *t = new T(); t->id = (int)pool.size(); sem_init(&t->go, 0, 0);
        pool.push_back(t);
        pthread_create(&t->th, nullptr, entry, t);
    }
    ts.assign(pool.begin(), pool.begin() + (long)bodies.size());
    for(size_t i = 0; i < ts.size(); i++) { ts[i]->body = &bodies[i]; ts[i]->done = false; ts[i]->c = Counts(); }
    if(T *n = next()) { sem_post(&n->go); while(sem_wait(&over)) {} }
    if(counts) for(auto *t : ts) counts->push_back(t->c);
    ts.clear();
}
static void access(void *p, size_t n, bool write) {
    if(!self) return;
    if((char *)p < __stop_nl_data && (char *)p + n > __start_nl_data) { point(STATIC); if(self) { self->c.statics++; self->c.writes += write; } }
    else if(!poisoned && __asan_region_is_poisoned(p, n)) { poisoned = true; if(mc::replaying()) { mc::OutLib o; mc::note("access to %zu bytes of freed or foreign memory", n); } }
}
}  // namespace threads
using threads::access;
using threads::point;
extern "C" {
void __sanitizer_cov_trace_pc(void) { point(threads::BLOCK); }
void __tsan_init(void) {}
void __tsan_func_entry(void *) { point(threads::FUNC); }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false); } \
    void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
// one thread runs at a time: plain operations are atomic
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int) { access((void *)p, sizeof(T), false); return *p; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = (T)(o ^ v); return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { access((void *)p, sizeof(T), true); T o = *p; *p = (T)~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((void *)p, sizeof(T), true); if(*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((void *)p, sizeof(T), true); if(*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((void *)p, sizeof(T), true); T o = *p; if(o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// no switch while a lock is held
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { threads::nolock++; return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { threads::nolock--; return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { threads::nolock++; int r = __real_pthread_once(o, f); threads::nolock--; return r; }
}
