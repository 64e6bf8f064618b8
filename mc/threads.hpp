// Controlled scheduler for two or three real threads. The translation unit is compiled with
// -Xclang -fsanitize=thread and this file is the runtime of that instrumentation: every memory
// access, atomic operation, guard, mutex and once-initialisation of the code under test arrives here.
//
// One thread runs at a time. It may be preempted at synchronisation operations and at accesses to
// bytes known to be shared unsynchronised (found by the happens-before analysis below, starting from
// none). Without a data race every interleaving is equivalent to one that switches at
// synchronisation operations only; with one, the racing bytes become switch points and the search
// starts again. Executions are forked, so each starts from the pristine global state.
#ifndef THREADS_HPP
#define THREADS_HPP

#include <cerrno>
#include <clocale>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdlib>

#define RT __attribute__((disable_sanitizer_instrumentation))
#define RTI __attribute__((disable_sanitizer_instrumentation, noinline))

namespace th {

enum { T = 3, CHOICES = 4096, OUT = 3000, VIS = 512, CELLS = 1 << 19, SYNCS = 256, ARENA = 4 << 20, STACK = 1 << 20 };

struct Report {
    int done[T];
    char out[T][OUT];
    int nchoice; unsigned char chosen[CHOICES], options[CHOICES];
    int nrace; uintptr_t race[VIS]; int ra, rb; char rkind[2];
    int deadlock, unsupported, overflow;
    uint64_t accesses, syncs, yields;
};

struct Cell { uintptr_t addr; uint32_t w[T], r[T]; unsigned char aw, ar; }; // clocks of the last write and read of each thread, atomic ones marked
struct Sync { uintptr_t addr; uint32_t vc[T]; int owner, depth, readers; int state; };

struct State {
    bool on;
    int n, cur, bound, used, spins;
    bool finished[T], blocked[T];
    sem_t baton[T], all;
    uint32_t vc[T][T];
    const unsigned char* prefix; int nprefix;
    const uintptr_t* vis; int nvis;
    Report* rep;
    Cell* cells;
    Sync syncs[SYNCS]; int nsyncs;
    char* arena[T]; size_t used_arena[T];
};
inline RT State& st() { static State* s; if (!s) s = static_cast<State*>(mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); return *s; }
extern State* S;
State* S = 0;
static __thread int tid = -1;      // controlled thread number
static __thread int inrt = 0;      // inside the runtime or the harness

RT inline bool active() { return S && S->on && tid >= 0 && !inrt; }

RTI static Sync* sync_of(uintptr_t a) {
    for (int i = 0; i < S->nsyncs; ++i) if (S->syncs[i].addr == a) return &S->syncs[i];
    if (S->nsyncs == SYNCS) { S->rep->overflow = 1; _exit(3); }
    Sync* s = &S->syncs[S->nsyncs++];
    s->addr = a; s->owner = -1;
    return s;
}
RT static void acquire(Sync* s) { for (int i = 0; i < T; ++i) if (S->vc[tid][i] < s->vc[i]) S->vc[tid][i] = s->vc[i]; }
RT static void release(Sync* s) { for (int i = 0; i < T; ++i) if (s->vc[i] < S->vc[tid][i]) s->vc[i] = S->vc[tid][i]; ++S->vc[tid][tid]; }

RTI static void hand_to(int t) {
    const int me = tid;
    S->cur = t; S->spins = 0;
    sem_post(&S->baton[t]);
    if (!S->finished[me]) while (sem_wait(&S->baton[me]) != 0) { }
}
// one decision among n options; replays the prefix, then takes option 0
RTI static int choose(int n) {
    if (n <= 1) return 0;
    Report* r = S->rep;
    if (r->nchoice >= CHOICES) { r->overflow = 1; _exit(3); }
    int c = r->nchoice < S->nprefix ? S->prefix[r->nchoice] : 0;
    if (c >= n) c = 0;
    r->options[r->nchoice] = (unsigned char) n;
    r->chosen[r->nchoice++] = (unsigned char) c;
    return c;
}
// the current thread may be preempted here
RTI static void yield() {
    ++S->rep->yields;
    if (S->used >= S->bound) {
        // a thread that only waits for another one to change something gets out of its way in the end
        if (++S->spins < 2000) return;
        S->spins = 0;
        for (int k = 1; k < S->n; ++k) { const int i = (tid + k) % S->n; if (!S->finished[i] && !S->blocked[i]) { hand_to(i); return; } }
        return;
    }
    int opts[T], n = 0;
    opts[n++] = tid;
    for (int i = 0; i < S->n; ++i) if (i != tid && !S->finished[i] && !S->blocked[i]) opts[n++] = i;
    const int c = choose(n);
    if (c) { ++S->used; hand_to(opts[c]); }
}
// the current thread cannot go on: another one must
RTI static void leave(bool blocked) {
    S->blocked[tid] = blocked;
    int opts[T], n = 0;
    for (int i = 0; i < S->n; ++i) if (i != tid && !S->finished[i] && !S->blocked[i]) opts[n++] = i;
    if (!n) {
        if (blocked) { S->rep->deadlock = 1; _exit(4); }
        for (int i = 0; i < S->n; ++i) if (!S->finished[i]) { S->rep->deadlock = 1; _exit(4); }
        sem_post(&S->all);
        return;
    }
    hand_to(opts[choose(n)]);
}
RT static void unblock_all() { for (int i = 0; i < S->n; ++i) S->blocked[i] = false; }

RTI static void race(uintptr_t a, int other, char k1, char k2) {
    Report* r = S->rep;
    for (int i = 0; i < r->nrace; ++i) if (r->race[i] == a) return;
    if (!r->nrace) { r->ra = other; r->rb = tid; r->rkind[0] = k1; r->rkind[1] = k2; }
    if (r->nrace < VIS) r->race[r->nrace++] = a;
}
RTI static void access(uintptr_t a, size_t n, bool write, bool atomic) {
    S->rep->accesses++;
    if (S->nvis && !atomic) {
        bool v = false;
        for (int i = 0; i < S->nvis && !v; ++i) v = S->vis[i] >= a && S->vis[i] < a + n;
        if (v) yield();
    }
    const uint32_t* vc = S->vc[tid];
    for (size_t k = 0; k < n; ++k, ++a) {
        size_t p = ((((a >> 7) * 0x9E3779B97F4A7C15ULL) >> 32 << 7) | (a & 127)) & (CELLS - 1);
        Cell* c = &S->cells[p];
        int probe = 0;
        while (c->addr != a && c->addr) { if (++probe > 4096) { S->rep->overflow = 1; _exit(3); } p = (p + 1) & (CELLS - 1); c = &S->cells[p]; }
        c->addr = a;
        for (int t = 0; t < S->n; ++t) {
            if (t == tid) continue;
            if (c->w[t] > vc[t] && !(atomic && (c->aw >> t & 1))) race(a, t, 'w', write ? 'w' : 'r');
            if (write && c->r[t] > vc[t] && !(atomic && (c->ar >> t & 1))) race(a, t, 'r', 'w');
        }
        // vc[tid] starts at 1, a clock of 0 means never
        if (write) { c->w[tid] = vc[tid]; if (atomic) c->aw |= 1 << tid; else c->aw &= ~(1 << tid); }
        else { c->r[tid] = vc[tid]; if (atomic) c->ar |= 1 << tid; else c->ar &= ~(1 << tid); }
    }
}
RT inline void touch(const volatile void* p, size_t n, bool write) { if (active()) { inrt = 1; access(reinterpret_cast<uintptr_t>(p), n, write, false); inrt = 0; } }

RTI static void atomic_pre(const volatile void* p, size_t n, int order, bool rd, bool wr) {
    ++S->rep->syncs;
    yield();
    Sync* s = sync_of(reinterpret_cast<uintptr_t>(p));
    access(reinterpret_cast<uintptr_t>(p), n, wr, true);
    if (order == 0) return; // relaxed
    if (rd && order != 3) acquire(s);
    if (wr && order >= 3) release(s);
}

} // namespace th

extern "C" {
RT void __tsan_init() {}
RT void __tsan_func_entry(void*) {}
RT void __tsan_func_exit() {}
RT void __tsan_ignore_thread_begin() {}
RT void __tsan_ignore_thread_end() {}
#define MC_ACC(n) \
RT void __tsan_read##n(void* p) { th::touch(p, n, false); } RT void __tsan_write##n(void* p) { th::touch(p, n, true); } \
RT void __tsan_unaligned_read##n(void* p) { th::touch(p, n, false); } RT void __tsan_unaligned_write##n(void* p) { th::touch(p, n, true); } \
RT void __tsan_read_write##n(void* p) { th::touch(p, n, false); th::touch(p, n, true); } RT void __tsan_unaligned_read_write##n(void* p) { th::touch(p, n, false); th::touch(p, n, true); } \
RT void __tsan_volatile_read##n(void* p) { th::touch(p, n, false); } RT void __tsan_volatile_write##n(void* p) { th::touch(p, n, true); } \
RT void __tsan_unaligned_volatile_read##n(void* p) { th::touch(p, n, false); } RT void __tsan_unaligned_volatile_write##n(void* p) { th::touch(p, n, true); }
MC_ACC(1) MC_ACC(2) MC_ACC(4) MC_ACC(8) MC_ACC(16)
RT void __tsan_read_range(void* p, size_t n) { th::touch(p, n, false); }
RT void __tsan_write_range(void* p, size_t n) { th::touch(p, n, true); }
RT void __tsan_vptr_update(void** p, void*) { th::touch(p, sizeof(void*), true); }
RT void __tsan_vptr_read(void** p) { th::touch(p, sizeof(void*), false); }
RT void* __tsan_memcpy(void* d, const void* s, size_t n) { th::touch(s, n, false); th::touch(d, n, true); return __builtin_memcpy(d, s, n); }
RT void* __tsan_memmove(void* d, const void* s, size_t n) { th::touch(s, n, false); th::touch(d, n, true); return __builtin_memmove(d, s, n); }
RT void* __tsan_memset(void* d, int v, size_t n) { th::touch(d, n, true); return __builtin_memset(d, v, n); }
#define MC_PRE(sz, rd, wr) if (th::active()) { th::inrt = 1; th::atomic_pre(p, sz, mo, rd, wr); th::inrt = 0; }
#define MC_ATOMIC(bits, type) \
RT type __tsan_atomic##bits##_load(const volatile type* p, int mo) { MC_PRE(sizeof(type), true, false) return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
RT void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), false, true) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_fetch_nand(volatile type* p, type v, int mo) { MC_PRE(sizeof(type), true, true) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
RT int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int) { MC_PRE(sizeof(type), true, true) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
RT int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int) { MC_PRE(sizeof(type), true, true) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
RT type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int mo, int) { MC_PRE(sizeof(type), true, true) __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
MC_ATOMIC(8, uint8_t) MC_ATOMIC(16, uint16_t) MC_ATOMIC(32, uint32_t) MC_ATOMIC(64, uint64_t)
RT void __tsan_atomic_thread_fence(int) { if (th::active()) { th::inrt = 1; ++th::S->rep->syncs; th::yield(); th::Sync* s = th::sync_of(1); th::acquire(s); th::release(s); th::inrt = 0; } }
RT void __tsan_atomic_signal_fence(int) {}

// initialisation of function-level statics
RTI int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    if (!th::active()) { if (*b) return 0; b[1] = 1; return 1; }
    th::inrt = 1;
    ++th::S->rep->syncs;
    th::yield();
    th::Sync* s = th::sync_of(reinterpret_cast<uintptr_t>(g));
    int r = 0;
    for (;;) {
        if (*b) { th::acquire(s); break; }
        if (s->owner < 0) { s->owner = th::tid; r = 1; th::acquire(s); break; }
        th::leave(true);
    }
    th::inrt = 0;
    return r;
}
RTI void __cxa_guard_release(uint64_t* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    if (!th::active()) { *b = 1; b[1] = 0; return; }
    th::inrt = 1;
    th::Sync* s = th::sync_of(reinterpret_cast<uintptr_t>(g));
    s->owner = -1; *b = 1; th::release(s); th::unblock_all();
    th::yield();
    th::inrt = 0;
}
RTI void __cxa_guard_abort(uint64_t* g) {
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    if (!th::active()) { b[1] = 0; return; }
    th::inrt = 1;
    th::Sync* s = th::sync_of(reinterpret_cast<uintptr_t>(g));
    s->owner = -1; th::release(s); th::unblock_all();
    th::inrt = 0;
}

#define MC_NEXT(ret, name, args) typedef ret (*name##_t) args; static name##_t name##_next() { static name##_t f = 0; if (!f) f = (name##_t) dlsym(RTLD_NEXT, #name); return f; }
}
namespace th {
RTI inline void* next(void** slot, const char* name) { if (!*slot) *slot = dlsym(RTLD_NEXT, name); return *slot; }
RTI inline int lock(void* m, bool wait, bool shared) {
    inrt = 1;
    ++S->rep->syncs;
    yield();
    Sync* s = sync_of(reinterpret_cast<uintptr_t>(m));
    int r = 0;
    for (;;) {
        if (shared ? s->owner < 0 || s->owner == tid : (s->owner < 0 && !s->readers) || s->owner == tid) { if (shared && s->owner != tid) ++s->readers; else { s->owner = tid; ++s->depth; } acquire(s); break; }
        if (!wait) { r = EBUSY; break; }
        leave(true);
    }
    inrt = 0;
    return r;
}
RTI inline int unlock(void* m) {
    inrt = 1;
    Sync* s = sync_of(reinterpret_cast<uintptr_t>(m));
    release(s);
    if (s->owner == tid) { if (--s->depth <= 0) { s->owner = -1; s->depth = 0; } } else if (s->readers) --s->readers;
    unblock_all();
    yield();
    inrt = 0;
    return 0;
}
// functions of the C library that keep state behind the caller's back
RTI inline void hidden_state(const char* name) { if (active()) { inrt = 1; access(reinterpret_cast<uintptr_t>(name), 1, true, false); inrt = 0; } }
}
extern "C" {
#define MC_FORWARD(name, type) static void* slot = 0; return reinterpret_cast<type>(th::next(&slot, #name))
RTI int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (th::active()) return th::lock(m, true, false); MC_FORWARD(pthread_mutex_lock, int (*)(pthread_mutex_t*))(m); }
RTI int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (th::active()) return th::lock(m, false, false); MC_FORWARD(pthread_mutex_trylock, int (*)(pthread_mutex_t*))(m); }
RTI int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (th::active()) return th::unlock(m); MC_FORWARD(pthread_mutex_unlock, int (*)(pthread_mutex_t*))(m); }
RTI int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (th::active()) return th::lock(m, true, true); MC_FORWARD(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*))(m); }
RTI int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (th::active()) return th::lock(m, true, false); MC_FORWARD(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*))(m); }
RTI int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (th::active()) return th::unlock(m); MC_FORWARD(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*))(m); }
RTI int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!th::active()) { MC_FORWARD(pthread_once, int (*)(pthread_once_t*, void (*)()))(o, f); }
    th::inrt = 1;
    ++th::S->rep->syncs;
    th::yield();
    th::Sync* s = th::sync_of(reinterpret_cast<uintptr_t>(o));
    if (*o == 2) s->state = 2; // done before the threads were started
    for (;;) {
        if (s->state == 2) { th::acquire(s); break; }
        if (s->state == 0) {
            s->state = 1; th::inrt = 0;
            f();
            th::inrt = 1; s->state = 2; *o = 2; th::release(s); th::unblock_all();
            break;
        }
        th::leave(true);
    }
    th::inrt = 0;
    return 0;
}
RTI char* strtok(char* s, const char* d) noexcept { th::hidden_state("strtok"); MC_FORWARD(strtok, char* (*)(char*, const char*))(s, d); }
RTI char* setlocale(int c, const char* l) noexcept { if (l) th::hidden_state("setlocale"); MC_FORWARD(setlocale, char* (*)(int, const char*))(c, l); }
RTI int rand() noexcept { th::hidden_state("rand"); MC_FORWARD(rand, int (*)())(); }

// every thread allocates from a region of its own and frees nothing, so that addresses mean the same object throughout
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
namespace th {
RT inline bool in_arena(const void* p) { if (!S) return false; for (int i = 0; i < T; ++i) if (S->arena[i] && p >= S->arena[i] && p < S->arena[i] + ARENA) return true; return false; }
RTI inline void* bump(size_t n, size_t al = 16) {
    size_t& u = S->used_arena[tid];
    u = (u + 16 + al - 1) / al * al;
    char* p = S->arena[tid] + u;
    if (u + n + 32 > ARENA) { S->rep->overflow = 1; _exit(3); }
    *reinterpret_cast<size_t*>(p - 8) = n;
    u += n;
    return p;
}
}
extern "C" {
RTI void* malloc(size_t n) noexcept { return th::S && th::S->on && th::tid >= 0 ? th::bump(n) : __libc_malloc(n); }
RTI void* calloc(size_t a, size_t b) noexcept { return th::S && th::S->on && th::tid >= 0 ? th::bump(a * b) : __libc_calloc(a, b); }
RTI void* memalign(size_t al, size_t n) noexcept { return th::S && th::S->on && th::tid >= 0 ? th::bump(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
RTI void* aligned_alloc(size_t al, size_t n) noexcept { return memalign(al, n); }
RTI int posix_memalign(void** p, size_t al, size_t n) noexcept { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
RTI void free(void* p) noexcept { if (!p || th::in_arena(p)) return; __libc_free(p); }
RTI void* realloc(void* p, size_t n) noexcept {
    const bool own = th::S && th::S->on && th::tid >= 0;
    if (!own && !th::in_arena(p)) return __libc_realloc(p, n);
    void* q = malloc(n);
    if (p) { const size_t o = th::in_arena(p) ? reinterpret_cast<size_t*>(p)[-1] : n; __builtin_memcpy(q, p, o < n ? o : n); }
    return q;
}
}

namespace th {

typedef std::string (*Op)(int variant);
struct Program { int n; Op ops[4]; int variants[4]; };

static const Program* programs;

RTI static void* thread_main(void* a) {
    const int id = int(reinterpret_cast<intptr_t>(a));
    tid = id; inrt = 1;
    while (sem_wait(&S->baton[id]) != 0) { }
    Report* r = S->rep;
    size_t at = 0;
    for (int k = 0; k < programs[id].n; ++k) {
        inrt = 0;
        const std::string o = programs[id].ops[k](programs[id].variants[k]);
        inrt = 1;
        for (size_t i = 0; i < o.size() && at + 2 < OUT; ++i) r->out[id][at++] = o[i];
        r->out[id][at++] = '\n';
    }
    r->out[id][at < OUT ? at : OUT - 1] = 0;
    r->done[id] = 1;
    S->finished[id] = true;
    unblock_all();
    leave(false);
    return 0;
}

static Report* report;
static char* stacks[T];
RTI static void prepare() {
    if (S) return;
    State* s = &st();
    for (int i = 0; i < T; ++i) {
        s->arena[i] = static_cast<char*>(mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        stacks[i] = static_cast<char*>(mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    s->cells = static_cast<Cell*>(mmap(0, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    report = static_cast<Report*>(mmap(0, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    s->rep = report;
    S = s;
}
// Executes the programs once under the schedule the prefix begins; wait status of the execution.
RTI static int execute(const Program* p, int n, int bound, const unsigned char* prefix, int nprefix, const uintptr_t* vis, int nvis) {
    prepare();
    std::memset(report, 0, sizeof(Report));
    const pid_t pid = fork();
    if (pid == 0) {
        alarm(60);
        programs = p;
        S->n = n; S->bound = bound; S->prefix = prefix; S->nprefix = nprefix; S->vis = vis; S->nvis = nvis;
        sem_init(&S->all, 0, 0);
        pthread_t t[T];
        for (int i = 0; i < n; ++i) {
            sem_init(&S->baton[i], 0, 0);
            S->vc[i][i] = 1;
        }
        for (int i = 0; i < n; ++i) {
            pthread_attr_t a;
            pthread_attr_init(&a);
            pthread_attr_setstack(&a, stacks[i], STACK);
            if (pthread_create(&t[i], &a, thread_main, reinterpret_cast<void*>(intptr_t(i)))) _exit(5);
        }
        S->on = true;
        const int first = choose(n);
        S->cur = first;
        sem_post(&S->baton[first]);
        while (sem_wait(&S->all) != 0) { }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) != pid) { }
    return status;
}

} // namespace th
#endif // THREADS_HPP
