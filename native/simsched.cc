#include "simsched.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <pthread.h>
#include <semaphore.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));

namespace {
std::map<long, int> switches_at;
long nblock = 0, nswitch = 0, next_at = -1;
unsigned long long dig = 1469598103934665603ULL;
struct T { sem_t go; bool done = false; pthread_t id; };
std::vector<T*> ts;
int cur = -1;                          // thread that holds the processor
sem_t all_done;
void (*fn)(int);
thread_local int me = -1, held = 0;          // held: inside the initialisation of a static object, which others wait for
thread_local bool active = false, inhook = false;

void mix(unsigned long long v) { for (int i = 0; i < 8; i++) { dig ^= (v >> (8 * i)) & 255; dig *= 1099511628211ULL; } }

void arm()
{
    auto it = switches_at.lower_bound(nblock + 1);
    next_at = it == switches_at.end() ? -1 : it->first;
}

void give(int to)
{
    int self = me;
    cur = to;
    nswitch++;
    mix(nblock); mix(to);
    sem_post(&ts[to]->go);
    while (sem_wait(&ts[self]->go)) {}
}

void* body(void* p)
{
    me = (int)(intptr_t)p;
    while (sem_wait(&ts[me]->go)) {}
    fn(me);
    ts[me]->done = true;
    for (size_t i = 0; i < ts.size(); i++)
        if (!ts[i]->done) { cur = (int)i; mix(nblock); mix(i); sem_post(&ts[i]->go); return nullptr; }
    sem_post(&all_done);
    return nullptr;
}

// live memory of the code under test: open addressing, no allocation of its own
const size_t N = 1 << 21;
struct E { const volatile void* p; size_t n; };
E* tab = (E*)calloc(N, sizeof(E));
long nlive = 0;
size_t nbytes = 0;
const volatile void* const GONE = (const volatile void*)1;

size_t slot(const volatile void* p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) >> 43; }

void on_malloc(const volatile void* p, size_t n)
{
    if (!active || inhook || !p) return;
    inhook = true;
    size_t i = slot(p) % N;
    while (tab[i].p && tab[i].p != GONE) i = (i + 1) % N;
    tab[i] = {p, n};
    nlive++; nbytes += n;
    inhook = false;
}

void on_free(const volatile void* p)
{
    if (inhook || !p) return;
    inhook = true;
    for (size_t i = slot(p) % N; tab[i].p; i = (i + 1) % N)
        if (tab[i].p == p) { tab[i].p = GONE; nlive--; nbytes -= tab[i].n; break; }
    inhook = false;
}
struct Init { Init() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } } init;
}

namespace sched {
void plan(long b, int to) { switches_at[b] = to; }
void enter() { active = true; }
void leave() { active = false; }
long blocks() { return nblock; }
unsigned long long digest() { return dig; }
long switches() { return nswitch; }
long live() { return nlive; }
size_t live_bytes() { return nbytes; }
void run(int n, void (*f)(int))
{
    fn = f;
    sem_init(&all_done, 0, 0);
    for (int i = 0; i < n; i++) { T* t = new T; sem_init(&t->go, 0, 0); ts.push_back(t); }
    for (int i = 0; i < n; i++) pthread_create(&ts[i]->id, nullptr, body, (void*)(intptr_t)i);
    nblock = 0;
    arm();
    cur = 0;
    sem_post(&ts[0]->go);
    while (sem_wait(&all_done)) {}
    for (auto t : ts) { pthread_join(t->id, nullptr); delete t; }
    ts.clear();
    next_at = -1;
}
}

extern "C" void __sanitizer_cov_trace_pc()
{
    if (!active) return;
    nblock++;
    if (nblock != next_at || me < 0) return;
    int to = switches_at[nblock];
    arm();
    if (held || to == me || to < 0 || to >= (int)ts.size() || ts[to]->done) return;
    active = false;
    give(to);
    active = true;
}

#ifdef SIM_LOCKS
// Locks of the code under test (the linker sends them here): a thread that would wait hands
// the processor on instead, so no thread ever blocks for real.
#include <cerrno>
template <class F> static int acquire(F attempt)
{
    int r;
    bool a = active;
    active = false;
    while ((r = attempt()) == EBUSY && me >= 0) {
        size_t n = ts.size();
        for (size_t k = 1; k < n; k++)
            if (!ts[(me + k) % n]->done) { give((int)((me + k) % n)); break; }
    }
    active = a;
    return r;
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return me < 0 ? __real_pthread_mutex_lock(m) : acquire([m] { return pthread_mutex_trylock(m); }); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return me < 0 ? __real_pthread_rwlock_rdlock(m) : acquire([m] { return pthread_rwlock_tryrdlock(m); }); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return me < 0 ? __real_pthread_rwlock_wrlock(m) : acquire([m] { return pthread_rwlock_trywrlock(m); }); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { held++; int r = __real_pthread_once(o, f); held--; return r; }
int __wrap___cxa_guard_acquire(void* g) { held++; int r = __real___cxa_guard_acquire(g); if (!r) held--; return r; }
void __wrap___cxa_guard_release(void* g) { __real___cxa_guard_release(g); held--; }
void __wrap___cxa_guard_abort(void* g) { __real___cxa_guard_abort(g); held--; }
}
#endif
