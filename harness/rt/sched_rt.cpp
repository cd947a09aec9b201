// No containers here: their instantiations would be merged with the instrumented ones.
#include "sched_rt.h"
#include "conc_rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <execinfo.h>
#include <new>
#include <initializer_list>

VfShared* vf_sh;
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); }
#define memset __real_memset
namespace {
struct Th { sem_t sem; int state; const void* on; bool timed, timeout; long vis, spin; pthread_t p; };
enum { NONE, RUN, BLOCKED, DONE };
Th th[VF_MAXT]; int nth, cur, step, rr; bool active, dead; unsigned long rnd;
__thread int self = -1;
void (*thebody)(int), (*thepre)(int), (*thepost)(int); sem_t ready;
sem_t finished;

// ---- heap
const size_t ARENA = 256ul << 20, NARENA = VF_MAXT + 1, REGION = ARENA * NARENA;
char* heap; unsigned char* shadow; size_t top[NARENA];
void heap_init() {
    heap = (char*)mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char*)mmap(nullptr, REGION / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (heap == MAP_FAILED || shadow == MAP_FAILED) abort();
}
void* take(size_t n, size_t align) {
    if (!heap) heap_init();
    int a = self + 1; if (align < 16) align = 16;
    size_t s = (n + 7) & ~7ul; if (!s) s = 8;
    size_t at = (top[a] + 16 + align - 1) & ~(align - 1);
    if (at + s + 16 > ARENA) vf_rt_fail("out of memory");
    top[a] = at + s;   // the gap before the next block is not allocated
    char* p = heap + a * ARENA + at; ((size_t*)p)[-1] = s;
    memset(shadow + (p - heap) / 8, 1, s / 8); return p;
}
void give(void* v) {
    if (!v) return; char* p = (char*)v;
    if (p < heap || p >= heap + REGION) vf_rt_fail("delete of memory that was not allocated");
    if (shadow[(p - heap) / 8] != 1) vf_rt_fail("memory is deleted twice");
    size_t s = ((size_t*)p)[-1]; memset(shadow + (p - heap) / 8, 2, s / 8); memset(p, 0xdd, s);
}
inline void check(const void* a, size_t n) {
    size_t o = (char*)a - heap;
    if (o < REGION && n) {
        for (size_t i = o / 8, e = (o + n - 1) / 8; i <= e; i++)
            if (__builtin_expect(shadow[i] != 1, 0)) vf_rt_fail(shadow[i] == 2 ? "access to deleted memory" : "access to memory that is not allocated");
    }
}
// ---- accesses
unsigned slot(VfTable& t, uintptr_t k) { unsigned i = (unsigned)((k * 0x9E3779B97F4A7C15ul) >> 48) & (VF_REC - 1); while (t.key[i] && t.key[i] != k) i = (i + 1) & (VF_REC - 1); return i; }
void record(VfTable& t, uintptr_t k, int bits) { unsigned i = slot(t, k); if (!t.key[i]) { if (t.n > VF_REC / 2) return; t.key[i] = k; t.n++; } t.bits[i] |= bits; }
unsigned long rnext() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
int pick() {
    if (!vf_sh->one_in) {
        while (step < vf_sh->nsteps && (th[vf_sh->steps[step].t].state == DONE || th[vf_sh->steps[step].t].vis > vf_sh->steps[step].k)) step++;
        for (int i = step; i < vf_sh->nsteps; i++) if (th[vf_sh->steps[i].t].state == RUN) return vf_sh->steps[i].t;
        for (int i = 0; i < nth; i++) if (th[(rr + i) % nth].state == RUN) return (rr + i) % nth;
    } else {
        int c = 0, r[VF_MAXT]; for (int i = 0; i < nth; i++) if (th[i].state == RUN) r[c++] = i;
        if (c) return r[rnext() % c];
    }
    for (int i = 0; i < nth; i++) if (th[i].state == BLOCKED && th[i].timed) { th[i].state = RUN; th[i].timeout = true; return i; }
    return -1;
}
void go(int to) {
    if (to == self) return;
    int me = self; th[me].spin = 0; cur = to; sem_post(&th[to].sem);
    if (th[me].state != DONE) while (sem_wait(&th[me].sem)) {}
}
void stuck() { dead = true; sem_post(&finished); for (;;) pause(); }
// the running thread cannot go on
void yield_blocked() { int p = pick(); if (p < 0) stuck(); go(p); }
void resched() { int p = pick(); if (p >= 0) go(p); }
// lets somebody else run
void rotate() {
    for (int i = 1; i < nth; i++) { int q = (self + i) % nth; if (th[q].state == RUN) { if (step < vf_sh->nsteps && vf_sh->steps[step].t == self) step++; rr = q; go(q); return; } }
    for (int i = 0; i < nth; i++) if (th[i].state == BLOCKED && th[i].timed) { th[i].state = RUN; th[i].timeout = true; go(i); return; }
    th[self].spin = 0;
}
// before a shared access
inline bool managed() { return active && self >= 0; }
void event(const void* a, int bits) {
    uintptr_t k = (uintptr_t)a >> 3;
    if (vf_sh->recording) { record(vf_sh->rec[self], k, bits); return; }
    Th& t = th[self];
    if (!vf_sh->conf.key[slot(vf_sh->conf, k)]) { if (++t.spin > 3000000) { if (t.spin > 30000000) vf_rt_fail("a thread does not come to an end"); rotate(); } return; }
    if (++t.spin > 200000) rotate();
    if (vf_sh->one_in) { if (rnext() % vf_sh->one_in == 0) resched(); }
    else if (step < vf_sh->nsteps && vf_sh->steps[step].t == self && vf_sh->steps[step].k == t.vis) { step++; resched(); }
    t.vis++;
}
inline bool onstack(const void* a) { char* f = (char*)__builtin_frame_address(0); return (char*)a >= f - 4096 && (char*)a < f + (1 << 20) && !((size_t)((char*)a - heap) < REGION); }
inline void access(const void* a, size_t n, int bits) {
    check(a, n);
    if (__builtin_expect(!managed(), 1) || onstack(a)) return;
    event(a, bits); if (n > 8) event((char*)a + 8, bits);
}
void wake(const void* on, int count = 1 << 30) { for (int i = 0; i < nth && count; i++) if (th[i].state == BLOCKED && th[i].on == on) { th[i].state = RUN; count--; } }
void block(const void* on, bool timed = false) { th[self].state = BLOCKED; th[self].on = on; th[self].timed = timed; th[self].timeout = false; yield_blocked(); }
pthread_key_t key;
// after the destructors of thread local variables
void end_(void*) {
    int me = self; if (thepost) thepost(me); th[me].state = DONE; vf_sh->vis[me] = th[me].vis;
    bool all = true; for (int k = 0; k < nth; k++) all = all && th[k].state == DONE;
    if (all) { self = -1; active = false; sem_post(&finished); return; }
    int p = pick(); if (p < 0) stuck();
    self = -1; cur = p; sem_post(&th[p].sem);
}
void* main_(void* i) {
    self = (int)(long)i; if (thepre) thepre(self); sem_post(&ready); while (sem_wait(&th[self].sem)) {}
    pthread_setspecific(key, &key);
    thebody(self); return nullptr;
}
void handler(int s) { vf_rt_fail(s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort" : s == SIGALRM ? "does not return" : "fatal signal"); }
template<class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" {
int vf_rt_self() { return self; }
void vf_rt_fail(const char* why) {
    signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
    if (vf_sh && !vf_sh->status[0]) {
        snprintf(vf_sh->status, sizeof vf_sh->status, "%s", why);
        vf_sh->nbt = backtrace(vf_sh->bt, 24);
    }
    _exit(77);
}
const char* vf_rt_base() { Dl_info i; return dladdr((void*)&vf_rt_fail, &i) ? (const char*)i.dli_fbase : nullptr; }
void vf_rt_init() {
    vf_sh = (VfShared*)mmap(nullptr, sizeof(VfShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    void* b[2]; backtrace(b, 2);
    static char alt[1 << 16]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = handler; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
}
int vf_rt_id(const char* key, void* p) {
    static struct { unsigned long h; void* p; } tab[1024]; static int n;
    unsigned long h = 1469598103934665603ul; for (const char* c = key; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ul;
    int k = 0; for (int i = 0; i < n; i++) if (tab[i].h == h) { if (tab[i].p == p) return k; k++; }
    if (n < 1024) { tab[n].h = h; tab[n++].p = p; } return k;
}
void vf_rt_log(char kind, int t, int i, const char* text) {
    long room = (long)sizeof vf_sh->text - vf_sh->len - 1;
    if (text) vf_sh->len += snprintf(vf_sh->text + vf_sh->len, room > 0 ? room : 0, "%c %d %d %s\n", kind, t, i, text);
    else vf_sh->len += snprintf(vf_sh->text + vf_sh->len, room > 0 ? room : 0, "%c %d %d\n", kind, t, i);
    if (vf_sh->len >= (long)sizeof vf_sh->text) vf_rt_fail("too much output");
}
void vf_rt_share() {
    memset(&vf_sh->conf, 0, sizeof vf_sh->conf);
    for (int t = 0; t < VF_MAXT; t++) for (int i = 0; i < VF_REC; i++) if (uintptr_t k = vf_sh->rec[t].key[i]) {
        int all = 0, n = 0; for (int u = 0; u < VF_MAXT; u++) { unsigned j = slot(vf_sh->rec[u], k); if (vf_sh->rec[u].key[j]) { n++; all |= vf_sh->rec[u].bits[j]; } }
        // 1 read, 2 written, 4 counted up or down, 8 another atomic or a lock
        if (n >= 2 && (all & (2 | 8))) record(vf_sh->conf, k, 1);
    }
}
int vf_rt_run(int n, void (*pre)(int), void (*body)(int), void (*post)(int)) {
    nth = n; thebody = body; thepost = post; thepre = pre; step = rr = 0; dead = false; rnd = vf_sh->seed * 7919ul + 0x1234567; for (int i = 0; i < 8; i++) rnext();
    pthread_key_create(&key, end_); sem_init(&finished, 0, 0); sem_init(&ready, 0, 0);
    for (int i = 0; i < n; i++) { sem_init(&th[i].sem, 0, 0); th[i].state = RUN; th[i].vis = th[i].spin = 0; vf_sh->vis[i] = 0; }
    for (int i = 0; i < n; i++) { if (pthread_create(&th[i].p, nullptr, main_, (void*)(long)i)) vf_rt_fail("no thread"); while (sem_wait(&ready)) {} }
    active = true; int p = pick(); cur = p; sem_post(&th[p].sem);
    while (sem_wait(&finished)) {}
    active = false;
    if (dead) return 1;
    for (int i = 0; i < n; i++) pthread_join(th[i].p, nullptr);
    return 0;
}
// ---- locks
int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto l = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); static auto t = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    check(m, 8);
    if (!managed()) return l(m);
    event(m, 8);
    for (;;) { int r = t(m); if (r != EBUSY) return r; if (vf_sh->recording && !active) return r; block(m); }
}
int pthread_mutex_trylock(pthread_mutex_t* m) { static auto t = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); check(m, 8); if (managed()) event(m, 8); return t(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto u = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); check(m, 8);
    int r = u(m); if (managed()) { wake(m); event(m, 8); if (!vf_sh->one_in) resched(); } return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static auto l = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); static auto t = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); check(m, 8); if (!managed()) return l(m); event(m, 8); for (;;) { int r = t(m); if (r != EBUSY) return r; block(m); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static auto l = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); static auto t = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); check(m, 8); if (!managed()) return l(m); event(m, 8); for (;;) { int r = t(m); if (r != EBUSY) return r; block(m); } }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { static auto u = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); check(m, 8); int r = u(m); if (managed()) { wake(m); event(m, 8); if (!vf_sh->one_in) resched(); } return r; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    pthread_mutex_unlock(m); event(c, 8); block(c, timed); bool to = th[self].timeout; pthread_mutex_lock(m); return timed && to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static auto w = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return managed() ? cwait(c, m, false) : w(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { static auto w = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return managed() ? cwait(c, m, true) : w(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { static auto w = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return managed() ? cwait(c, m, true) : w(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) { static auto w = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); if (!managed()) return w(c); event(c, 8); wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { static auto w = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); if (!managed()) return w(c); event(c, 8); wake(c); return 0; }
int sched_yield() { static auto w = real<int (*)()>("sched_yield"); if (!managed()) return w(); rotate(); return 0; }
int nanosleep(const struct timespec* t, struct timespec* r) { static auto w = real<int (*)(const timespec*, timespec*)>("nanosleep"); if (!managed()) return w(t, r); rotate(); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* r) { static auto w = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep"); if (!managed()) return w(c, f, t, r); rotate(); return 0; }
// things that are initialised once
static const void* once[64]; static int nonce;
static bool doing(const void* p) { for (int i = 0; i < nonce; i++) if (once[i] == p) return true; return false; }
static void undo(const void* p) { for (int i = 0; i < nonce; i++) if (once[i] == p) { once[i] = once[--nonce]; break; } if (managed()) { wake(p); } }
int pthread_once(pthread_once_t* c, void (*f)()) {
    static_assert(sizeof(pthread_once_t) == 4, "");
    if (managed()) event(c, 8);
    while (*c != 2) {
        if (doing(c) && managed()) { block(c); continue; }
        once[nonce++] = c;
        try { f(); } catch (...) { undo(c); throw; }
        *c = 2; undo(c);
    }
    return 0;
}
#pragma GCC diagnostic ignored "-Wbuiltin-declaration-mismatch"
int __cxa_guard_acquire(long long* gg) { char* g = (char*)gg; if (managed()) event(g, 8); for (;;) { if (*g) return 0; if (doing(g) && managed()) { block(g); continue; } once[nonce++] = g; return 1; } }
void __cxa_guard_release(long long* gg) { char* g = (char*)gg; *g = 1; undo(g); if (managed()) event(g, 8); }
void __cxa_guard_abort(long long* g) { undo(g); }
// ---- instrumentation
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, 1); } void __tsan_write##n(void* a) { access(a, n, 2); } \
 void __tsan_unaligned_read##n(void* a) { access(a, n, 1); } void __tsan_unaligned_write##n(void* a) { access(a, n, 2); } \
 void __tsan_volatile_read##n(void* a) { access(a, n, 1); } void __tsan_volatile_write##n(void* a) { access(a, n, 2); } \
 void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, 1); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, 2); } \
 void __tsan_read##n##_pc(void* a, void*) { access(a, n, 1); } void __tsan_write##n##_pc(void* a, void*) { access(a, n, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { access(a, 8, *a == v ? 1 : 2); } void __tsan_vptr_read(void** a) { access(a, 8, 1); }
static void range(void* a, size_t n, int bits) { check(a, n); if (!managed() || onstack(a) || !n) return; for (size_t i = 0; i < n && i < 256; i += 8) event((char*)a + i, bits); }
void __tsan_read_range(void* a, size_t n) { range(a, n, 1); } void __tsan_write_range(void* a, size_t n) { range(a, n, 2); }
typedef unsigned __int128 u128;
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T* a, int) { access((void*)a, sizeof(T), 1); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##B##_store(volatile T* a, T v, int) { access((void*)a, sizeof(T), 8); __atomic_store_n(a, v, 5); } \
 T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access((void*)a, sizeof(T), 8); return __atomic_exchange_n(a, v, 5); } \
 T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access((void*)a, sizeof(T), 4); return __atomic_fetch_add(a, v, 5); } \
 T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access((void*)a, sizeof(T), 4); return __atomic_fetch_sub(a, v, 5); } \
 T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access((void*)a, sizeof(T), 8); return __atomic_fetch_and(a, v, 5); } \
 T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access((void*)a, sizeof(T), 8); return __atomic_fetch_or(a, v, 5); } \
 T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access((void*)a, sizeof(T), 8); return __atomic_fetch_xor(a, v, 5); } \
 T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { access((void*)a, sizeof(T), 8); return __atomic_fetch_nand(a, v, 5); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, sizeof(T), 8); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((void*)a, sizeof(T), 8); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, sizeof(T), 8); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); } void __tsan_atomic_signal_fence(int) {}
// the compiler does not instrument these
void* __wrap_memcpy(void* d, const void* s, size_t n) { range((void*)s, n, 1); range(d, n, 2); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { range((void*)s, n, 1); range(d, n, 2); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { range(d, n, 2); return __real_memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { range((void*)a, n, 1); range((void*)b, n, 1); return __real_memcmp(a, b, n); }
}
void* operator new(size_t n) { return take(n, 16); } void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 16); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); } void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { give(p); } void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); } void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); } void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
