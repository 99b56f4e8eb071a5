// A deterministic scheduler for code compiled with -fsanitize=thread.
//
// The instrumentation calls __tsan_readN / __tsan_writeN / __tsan_atomic* before (or instead of) every memory access.
// This file implements those entry points (libtsan is not linked): every access to memory other than the running
// thread's own stack is a point where another thread may be scheduled.  "Threads" are coroutines on one OS thread:
// pthread_create, futex and the pthread synchronisation calls are replaced, so an execution is a function of the seed.
#include "coop.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <vector>
#include <map>

#define NOINST __attribute__((no_sanitize("thread")))

namespace {

struct Co {
    void* sp = nullptr;
    char* lo = nullptr; char* hi = nullptr;   // stack
    void* (*fn)(void*) = nullptr; void* arg = nullptr;
    bool done = false, blocked = false;
    void* waitAddr = nullptr; bool isCaller = false;
    long prio = 0; long spins = 0; long lastProgress = 0;
};

std::vector<Co*> cos_;
int cur = 0;
bool active = false;                 // scheduling on
sched_params P;
unsigned long long rngs = 88172645463325252ULL;
long steps = 0, switches = 0, plainRun = 0;
std::vector<char*> freeStacks;
const size_t STACK = 256 * 1024;
long prioLow = 0;
const unsigned char* guide = nullptr; long guideLen = 0, guidePos = 0;
std::vector<long> changes; size_t changeIdx = 0;
sched_range ranges[16]; int nranges = 0; sched_access_cb accessCb = nullptr;
sched_stuck_cb stuckCb = nullptr;
int inCb = 0;

NOINST inline unsigned long long rnd() {
    rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
    return rngs;
}

extern "C" void co_swap(void** save, void* to);
asm(R"(
.text
.type co_swap,@function
co_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size co_swap,.-co_swap
)");

void stuck(const char* why);

NOINST void switchTo(int n) {
    if (n == cur) return;
    int o = cur;
    cur = n;
    switches++;
    co_swap(&cos_[o]->sp, cos_[n]->sp);
}

NOINST int pickRandom(bool excludeCur) {
    int cand[64], c = 0;
    for (size_t i = 0; i < cos_.size() && c < 64; i++)
        if (!cos_[i]->done && !cos_[i]->blocked && !(excludeCur && (int)i == cur)) cand[c++] = (int)i;
    if (!c) return -1;
    return cand[rnd() % c];
}

NOINST int pickPrio() {
    int best = -1;
    for (size_t i = 0; i < cos_.size(); i++)
        if (!cos_[i]->done && !cos_[i]->blocked && (best < 0 || cos_[i]->prio > cos_[best]->prio)) best = (int)i;
    return best;
}

NOINST int nextRoundRobin() {
    int n = (int)cos_.size();
    for (int k = 1; k <= n; k++) {
        int i = (cur + k) % n;
        if (!cos_[i]->done && !cos_[i]->blocked) return i;
    }
    return -1;
}

NOINST void entry() {
    Co* c = cos_[cur];
    c->fn(c->arg);
    c->done = true;
    for (;;) {
        int n = P.strategy == SCHED_PCT ? pickPrio() : pickRandom(false);
        if (n < 0) n = nextRoundRobin();
        if (n < 0) { stuck("every thread is blocked"); }
        switchTo(n);
    }
}

NOINST void stuck(const char* why) {
    if (stuckCb) stuckCb(why);
    fprintf(stderr, "SCHED-STUCK %s\n", why);
    _exit(77);
}

// A scheduling point.  sync: at a synchronisation (atomic, futex, callback boundary) rather than a plain access.
NOINST void point(bool sync) {
    if (!active) return;
    steps++;
    Co* me = cos_[cur];
    if (steps > P.maxSteps) stuck("no end of the execution within the step limit");
    int n = cur;
    if (guide && guidePos < guideLen) {
        // between synchronisations the guided thread runs on, unless it spins
        if (!sync && ++plainRun < P.spinLimit) return;
        plainRun = 0;
        int g = guide[guidePos++];
        if (g < (int)cos_.size() && !cos_[g]->done && !cos_[g]->blocked) n = g;
        switchTo(n);
        return;
    }
    if (steps > P.fairAfter) {                 // fair tail: everything must end now
        if ((steps & 7) == 0) { n = nextRoundRobin(); if (n >= 0) switchTo(n); }
        return;
    }
    switch (P.strategy) {
    case SCHED_RANDOM:
        if ((rnd() & 0xffff) < (unsigned)(sync ? P.probSync : P.probPlain)) n = pickRandom(false);
        break;
    case SCHED_PCT:
        while (changeIdx < changes.size() && steps >= changes[changeIdx]) { me->prio = --prioLow; changeIdx++; }
        if (++me->spins > P.spinLimit) { me->spins = 0; me->prio = --prioLow; }
        n = pickPrio();
        break;
    case SCHED_ROUNDROBIN:
        if (++me->spins >= P.spinLimit) { me->spins = 0; n = nextRoundRobin(); }
        break;
    }
    if (n < 0) n = cur;
    if (n != cur) { cos_[n]->spins = 0; switchTo(n); }
}

NOINST void blockCurrent() {
    Co* me = cos_[cur];
    me->blocked = true;
    int n = P.strategy == SCHED_PCT && steps <= P.fairAfter ? pickPrio() : (steps > P.fairAfter ? nextRoundRobin() : pickRandom(false));
    if (n < 0) stuck("every thread is blocked");
    switchTo(n);
}

NOINST int wakeAddr(void* addr, int howMany) {
    int woken = 0;
    while (woken < howMany) {
        int cand[64], c = 0;
        for (size_t i = 0; i < cos_.size() && c < 64; i++)
            if (cos_[i]->blocked && cos_[i]->waitAddr == addr) cand[c++] = (int)i;
        if (!c) break;
        int i = cand[rnd() % c];
        cos_[i]->blocked = false;
        cos_[i]->waitAddr = nullptr;
        woken++;
    }
    return woken;
}

NOINST inline bool ownStack(const void* a) {
    const char* p = (const char*)a;
    Co* c = cos_[cur];
    return p >= c->lo && p < c->hi;
}

NOINST inline void access(const void* a, int size, int write) {
    if (!active || inCb) return;
    if (nranges) {
        for (int i = 0; i < nranges; i++)
            if ((const char*)a + size > ranges[i].lo && (const char*)a < ranges[i].hi) {
                inCb++;
                accessCb(cur, a, size, write, i);
                inCb--;
                if (P.dataEvery && (steps % P.dataEvery) != 0) { steps++; return; }
                break;
            }
    }
    if (ownStack(a)) return;
    point(false);
}

}  // namespace

extern "C" {

NOINST void sched_defaults(sched_params* p) {
    memset(p, 0, sizeof *p);
    p->strategy = SCHED_RANDOM; p->seed = 1; p->probSync = 0x6000; p->probPlain = 0x1000;
    p->maxSteps = 4000000; p->fairAfter = 2000000; p->spinLimit = 200; p->depth = 3; p->horizon = 2000; p->spurious = 0; p->dataEvery = 0;
}

NOINST static void initMain() {
    if (cos_.empty()) {
        Co* m = new Co();
        pthread_attr_t at; void* sa; size_t sz;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &sa, &sz);
        pthread_attr_destroy(&at);
        m->lo = (char*)sa; m->hi = (char*)sa + sz; m->isCaller = true;
        cos_.push_back(m);
        cur = 0;
    }
}

// Start a new execution: drops every coroutine but the main one unless keep is set.
NOINST void sched_begin(const sched_params* p, int keep) {
    initMain();
    P = *p;
    rngs = 0x9E3779B97F4A7C15ULL * (p->seed + 1) ^ 0x2545F4914F6CDD1DULL;
    for (int i = 0; i < 8; i++) rnd();
    if (!keep) {
        for (size_t i = 1; i < cos_.size(); i++) { freeStacks.push_back(cos_[i]->lo); delete cos_[i]; }
        cos_.resize(1);
    }
    cur = 0; steps = 0; switches = 0; prioLow = 0; changes.clear(); changeIdx = 0; guidePos = 0;
    if (p->strategy == SCHED_PCT) {
        for (int i = 0; i < p->depth; i++) changes.push_back(rnd() % (p->horizon > 0 ? p->horizon : 1));
        for (size_t i = 0; i < changes.size(); i++) for (size_t j = i + 1; j < changes.size(); j++) if (changes[j] < changes[i]) { long t = changes[i]; changes[i] = changes[j]; changes[j] = t; }
    }
    for (auto c : cos_) { c->prio = 1000 + (long)(rnd() % 100000); c->spins = 0; }
    active = true;
}
NOINST void sched_end() { active = false; }
NOINST int sched_is_active() { return active; }
NOINST void sched_pause(int on) { if (on) inCb++; else inCb--; }
NOINST long sched_steps() { return steps; }
NOINST long sched_switches() { return switches; }
NOINST int sched_self() { return cur; }
NOINST unsigned long long sched_rnd() { return rnd(); }
NOINST void sched_guide(const unsigned char* g, long n) { guide = g; guideLen = n; guidePos = 0; }
NOINST void sched_point() { if (!inCb) point(true); }
NOINST void sched_plain_point() { if (!inCb) point(false); }
NOINST void sched_on_stuck(sched_stuck_cb cb) { stuckCb = cb; }
NOINST void sched_watch(const sched_range* r, int n, sched_access_cb cb) { nranges = n; for (int i = 0; i < n; i++) ranges[i] = r[i]; accessCb = cb; }

NOINST int sched_spawn(void* (*fn)(void*), void* arg, int caller) {
    initMain();
    Co* c = new Co();
    char* lo;
    if (!freeStacks.empty()) { lo = freeStacks.back(); freeStacks.pop_back(); }
    else lo = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    c->lo = lo; c->hi = lo + STACK; c->fn = fn; c->arg = arg; c->isCaller = caller;
    void** sp = (void**)(c->hi - 64);
    *--sp = nullptr;                 // alignment
    *--sp = (void*)entry;            // return address of co_swap
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    c->sp = sp;
    c->prio = 1000 + (long)(rnd() % 100000);
    cos_.push_back(c);
    return (int)cos_.size() - 1;
}

NOINST int sched_runnable_others() { int c = 0; for (size_t i = 0; i < cos_.size(); i++) if ((int)i != cur && !cos_[i]->done && !cos_[i]->blocked) c++; return c; }

// Let the others run until every worker is blocked (or the limit): used after the callers have returned.
NOINST int sched_drain(long limit) {
    long n = 0;
    while (sched_runnable_others()) {
        if (n++ > limit) return 0;
        int k = pickRandom(true);
        if (k < 0) break;
        switchTo(k);
    }
    return 1;
}
// Main waits for the caller coroutines.
NOINST void sched_join_callers() {
    for (;;) {
        bool all = true;
        for (size_t i = 1; i < cos_.size(); i++) if (cos_[i]->isCaller && !cos_[i]->done) all = false;
        if (all) return;
        cos_[0]->prio = -1000000000;
        int k = (P.strategy == SCHED_PCT && steps <= P.fairAfter) ? -1 : pickRandom(true);
        if (k < 0) { int b = -1; for (size_t i = 1; i < cos_.size(); i++) if (!cos_[i]->done && !cos_[i]->blocked && (b < 0 || cos_[i]->prio > cos_[b]->prio)) b = (int)i; k = b; }
        if (k < 0) stuck("every thread is blocked");
        switchTo(k);
        if (++steps > P.maxSteps) stuck("no end of the execution within the step limit");
    }
}

// ------------------------------------------------------------------ replaced system interfaces
NOINST long SCHED_NAME(syscall)(long n, ...) {
    va_list ap; va_start(ap, n);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && !cos_.empty()) {
        int* addr = (int*)a[0];
        int op = (int)a[1] & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (cur == 0 && !active) return 0;
            point(true);
            if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
            if (a[3]) { point(true); errno = ETIMEDOUT; return -1; }       // a timed wait may always time out
            if (P.spurious && (rnd() & 0xffff) < (unsigned)P.spurious) { point(true); return 0; }
            cos_[cur]->waitAddr = addr;
            blockCurrent();
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(true);
            int w = wakeAddr(addr, (int)a[2]);
            point(true);
            return w;
        }
    }
    long r;
    register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

NOINST int SCHED_NAME(pthread_create)(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    int id = sched_spawn(fn, arg, 0);
    *t = (pthread_t)(id + 1000);
    return 0;
}
NOINST int SCHED_NAME(pthread_detach)(pthread_t) { return 0; }
NOINST int SCHED_NAME(pthread_setaffinity_np)(pthread_t, size_t, const cpu_set_t*) { return 0; }
NOINST int SCHED_NAME(pthread_mutex_lock)(pthread_mutex_t* m) {
    // lock word: first int of the mutex
    point(true);
    while (*(volatile int*)m) { cos_[cur]->waitAddr = m; blockCurrent(); }
    *(volatile int*)m = 1;
    return 0;
}
NOINST int SCHED_NAME(pthread_mutex_trylock)(pthread_mutex_t* m) {
    point(true);
    if (*(volatile int*)m) return EBUSY;
    *(volatile int*)m = 1;
    return 0;
}
NOINST int SCHED_NAME(pthread_mutex_unlock)(pthread_mutex_t* m) {
    *(volatile int*)m = 0;
    wakeAddr(m, 1);
    point(true);
    return 0;
}
NOINST int SCHED_NAME(pthread_cond_wait)(pthread_cond_t* c, pthread_mutex_t* m) {
    *(volatile int*)m = 0;
    wakeAddr(m, 1);
    cos_[cur]->waitAddr = c;
    blockCurrent();
    return SCHED_NAME(pthread_mutex_lock)(m);
}
NOINST int SCHED_NAME(pthread_cond_signal)(pthread_cond_t* c) { wakeAddr(c, 1); point(true); return 0; }
NOINST int SCHED_NAME(pthread_cond_broadcast)(pthread_cond_t* c) { wakeAddr(c, 1000); point(true); return 0; }
NOINST int SCHED_NAME(sched_yield)() { point(true); return 0; }
NOINST int SCHED_NAME(usleep)(useconds_t) { point(true); return 0; }
NOINST int SCHED_NAME(nanosleep)(const struct timespec*, struct timespec*) { point(true); return 0; }

// ------------------------------------------------------------------ instrumentation entry points
NOINST void __tsan_init() {}
NOINST void __tsan_func_entry(void*) {}
NOINST void __tsan_func_exit() {}
#define RW(n) \
NOINST void __tsan_read##n(void* a) { access(a, n, 0); } \
NOINST void __tsan_write##n(void* a) { access(a, n, 1); } \
NOINST void __tsan_unaligned_read##n(void* a) { access(a, n, 0); } \
NOINST void __tsan_unaligned_write##n(void* a) { access(a, n, 1); } \
NOINST void __tsan_volatile_read##n(void* a) { access(a, n, 0); } \
NOINST void __tsan_volatile_write##n(void* a) { access(a, n, 1); } \
NOINST void __tsan_read_write##n(void* a) { access(a, n, 1); } \
NOINST void __tsan_unaligned_read_write##n(void* a) { access(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOINST void __tsan_vptr_update(void** a, void*) { access(a, 8, 1); }
NOINST void __tsan_vptr_read(void** a) { access(a, 8, 0); }
NOINST void __tsan_read_range(void* a, unsigned long n) { access(a, (int)n, 0); }
NOINST void __tsan_write_range(void* a, unsigned long n) { access(a, (int)n, 1); }
NOINST void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, (int)n, 0); access(d, (int)n, 1); return memcpy(d, s, n); }
NOINST void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, (int)n, 0); access(d, (int)n, 1); return memmove(d, s, n); }
NOINST void* __tsan_memset(void* d, int v, unsigned long n) { access(d, (int)n, 1); return memset(d, v, n); }
NOINST void __tsan_atomic_thread_fence(int) { if (!inCb) point(true); }
NOINST void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
NOINST T __tsan_atomic##b##_load(const volatile T* a, int) { if (!inCb) point(true); return *a; } \
NOINST void __tsan_atomic##b##_store(volatile T* a, T v, int) { if (!inCb) point(true); *a = v; } \
NOINST T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = v; return o; } \
NOINST T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = o + v; return o; } \
NOINST T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = o - v; return o; } \
NOINST T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = o & v; return o; } \
NOINST T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = o | v; return o; } \
NOINST T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = o ^ v; return o; } \
NOINST T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { if (!inCb) point(true); T o = *a; *a = ~(o & v); return o; } \
NOINST int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { if (!inCb) point(true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
NOINST int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { if (!inCb) point(true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
NOINST T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { if (!inCb) point(true); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
