// The scheduler, the happens-before checker and the seams behind which every
// source of interleaving lies: the compiler's ThreadSanitizer instrumentation
// calls (implemented here instead of by its own runtime), static-initialisation
// guards, pthread synchronisation, and malloc.
//
// Compiled without instrumentation. Uses no library that could call back here.
#include "threads_rt.h"
#include <atomic>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <cerrno>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t); extern char __executable_start, etext; }

namespace sim { namespace thr {
namespace {

constexpr int N = MAX_THREADS;
using u32 = std::uint32_t;
struct VC {
    u32 c[N] = {};
    void join(VC const & o) { for (int i = 0; i < N; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { READY, BLOCKED, DONE };
struct Thread {
    int id = -1;
    pthread_t handle;
    char * lo = nullptr, * hi = nullptr;      // its stack (and thread-local storage)
    State state = READY;
    void const * waitFor = nullptr;
    int priority = 0;
    VC vc, acqFence, relFence;
    u64 nShared = 0, nSync = 0, spin = 0;
    std::atomic<int> go{0};
    char const * what = "start";
    struct { u32 clk; char const * what; } marks[512];
    int nmarks = 0;
    char const * whatAt(u32 clk) const {
        char const * w = "start";
        for (int i = 0; i < nmarks; ++i) if (marks[i].clk <= clk) w = marks[i].what;
        return w;
    }
};

Thread g_t[N];
int g_n = 0;
bool g_on = false;
thread_local Thread * t_me = nullptr;
Config const * g_cfg = nullptr;
Stats g_stats;
u64 g_walk = 0, g_walkLeft = 0;
int g_lowest = 0;
std::function<void(int)> const * g_body = nullptr;
std::atomic<int> g_finished{0};

void futexWait(std::atomic<int> & a, int v) { while (a.load(std::memory_order_acquire) == v) syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futexWake(std::atomic<int> & a) { syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }

void schedule(u64 x) { g_stats.schedule = mix(g_stats.schedule ^ x); }

// Pick who runs next; null if everybody is done.
Thread * next(Thread * avoid) {
    Thread * best = nullptr;
    for (int i = 0; i < g_n; ++i) {
        Thread & t = g_t[i];
        if (t.state != READY || &t == avoid) continue;
        if (!best || t.priority > best->priority) best = &t;
    }
    return best;
}
Thread * anyOther(Thread * me, u64 r) {
    Thread * c[N]; int n = 0;
    for (int i = 0; i < g_n; ++i) if (g_t[i].state == READY && &g_t[i] != me) c[n++] = &g_t[i];
    return n ? c[r % n] : nullptr;
}
void handTo(Thread * t) { t->go.store(1, std::memory_order_release); futexWake(t->go); }
void switchTo(Thread * me, Thread * t) {
    if (!t || t == me) return;
    ++g_stats.switches;
    schedule(u64(me->id) << 4 | u64(t->id)); schedule(me->nShared); schedule(me->nSync);
    me->go.store(0, std::memory_order_relaxed);
    handTo(t);
    futexWait(me->go, 0);
}
void block(Thread * me, void const * on) {
    me->state = BLOCKED;
    me->waitFor = on;
    ++g_stats.blocked;
    Thread * t = next(nullptr);
    if (!t) die("deadlock", "every thread waits for another one (thread %d in %s)", me->id, me->what);
    switchTo(me, t);
}
void wake(void const * on, bool all = true) {
    for (int i = 0; i < g_n; ++i) if (g_t[i].state == BLOCKED && g_t[i].waitFor == on) { g_t[i].state = READY; if (!all) return; }
}

void step(Thread * me) {
    if (++g_stats.accesses > g_cfg->stepLimit) die("no-progress", "the threads did not finish within the step budget of the run (thread %d in %s)", me->id, me->what);
    ++env::steps;
}
// A point at which the scheduler may take the processor away.
void point(Thread * me, int kind) {
    u64 n = kind ? ++me->nSync : ++me->nShared;
    for (auto const & p : g_cfg->preempts)
        if (p.tid == me->id && p.kind == kind && p.at == n) {
            ++g_stats.preempts;
            me->priority = --g_lowest;
            switchTo(me, next(nullptr));
            return;
        }
    if (g_walkLeft && --g_walkLeft == 0) {
        g_walk = mix(g_walk);
        g_walkLeft = 1 + (g_walk >> 8) % (2 * g_cfg->walkMean);
        if (Thread * t = anyOther(me, g_walk)) { ++g_stats.walks; switchTo(me, t); }
    }
}
void yieldNow(Thread * me) {
    me->priority = --g_lowest;
    switchTo(me, next(nullptr));
}

// ---- the arena -------------------------------------------------------------------

struct Head { size_t size; u32 cls; u32 off; };            // directly before each block
constexpr size_t ARENA = size_t(2) << 30;
char * g_arena = nullptr, * g_top = nullptr;
void * g_free[96];
Head & head(void * p) { return static_cast<Head *>(p)[-1]; }
bool inArena(void * p) { return g_arena && p >= g_arena && p < g_arena + ARENA; }
u32 classOf(size_t n, size_t & cap) {
    if (n <= 512) { u32 c = n ? u32((n + 15) / 16) : 1; cap = c * 16; return c; }
    u32 b = 10;
    while ((size_t(1) << b) < n) ++b;
    cap = size_t(1) << b;
    return 32 + b;
}
void * arenaAlloc(size_t n, size_t al) {
    if (n > ARENA / 2) return nullptr;
    size_t cap; u32 c = classOf(n, cap);
    if (al <= 16 && g_free[c]) {
        void * p = g_free[c];
        g_free[c] = *static_cast<void **>(p);
        head(p).size = n;
        return p;
    }
    char * p = g_top + sizeof(Head);
    p = reinterpret_cast<char *>((reinterpret_cast<u64>(p) + al - 1) / al * al);
    if (p + cap > g_arena + ARENA) return nullptr;
    g_top = p + cap;
    head(p) = {n, c, 0};
    return p;
}
void arenaFree(void * p) { u32 c = head(p).cls; *static_cast<void **>(p) = g_free[c]; g_free[c] = p; }

// ---- shadow memory ----------------------------------------------------------

struct Entry { u32 clk; std::uint8_t tid, mask, write, atomic; };
struct Cell { u64 key; std::uint32_t n; std::uint32_t pad; Entry e[10]; };
constexpr size_t CELLS = 1u << 20;
Cell * g_cells = nullptr;
size_t g_used = 0;

Cell * find(u64 key, bool make) {
    size_t i = mix(key) & (CELLS - 1);
    while (g_cells[i].key && g_cells[i].key != key) i = (i + 1) & (CELLS - 1);
    if (!g_cells[i].key) {
        if (!make) return nullptr;
        if (g_used > CELLS * 3 / 4) { ++g_stats.full; return nullptr; }
        ++g_used;
        g_cells[i].key = key;
    }
    return &g_cells[i];
}

struct Where { char text[200]; };
Where describe(void const * pc) {
    Where w; w.text[0] = 0;
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) std::snprintf(w.text, sizeof w.text, "%.180s", d.dli_sname);
    return w;
}
[[noreturn]] void race(Thread * me, char const * addr, bool write, Entry const & o, void const * pc) {
    Thread const & ot = g_t[o.tid];
    bool global = addr >= &__executable_start && addr < static_cast<char *>(sbrk(0)) && addr < &__executable_start + (64u << 20);
    die("data-race", "thread %d %s %s while thread %d %s it, unordered: %s (in %s) against %s", me->id, write ? "writes" : "reads", global ? "global data" : "shared memory",
        ot.id, o.write ? "writes" : "reads", me->what, describe(pc).text, ot.whatAt(o.clk));
}

void access(char const * a, size_t n, bool write, bool atomic, void const * pc) {
    Thread * me = t_me;
    if (!me || !g_on || !n) return;
    if (a >= me->lo && a < me->hi) return;
    step(me);
    bool shared = atomic || !inArena(const_cast<char *>(a));     // global data counts as shared
    u64 first = reinterpret_cast<u64>(a) >> 3, last = (reinterpret_cast<u64>(a) + n - 1) >> 3;
    for (u64 k = first; k <= last; ++k) {
        std::uint8_t mask = 0xff;
        if (k == first) mask &= 0xff << (reinterpret_cast<u64>(a) & 7);
        if (k == last) mask &= 0xff >> (7 - ((reinterpret_cast<u64>(a) + n - 1) & 7));
        Cell * c = find(k, true);
        if (!c) continue;
        int slot = -1;
        for (u32 i = 0; i < c->n; ++i) {
            Entry & e = c->e[i];
            if (e.tid == me->id) { if (e.write == write && e.atomic == atomic && !(e.mask & ~mask)) { slot = i; } continue; }
            shared = true;
            if (!(e.mask & mask) || !(write || e.write) || (atomic && e.atomic) || e.clk <= me->vc.c[e.tid]) continue;
            race(me, a, write, e, pc);
        }
        if (slot < 0) { if (c->n < 10) slot = c->n++; else { ++g_stats.full; slot = (me->vc.c[me->id] + k) % 10; } }
        c->e[slot] = {me->vc.c[me->id], std::uint8_t(me->id), mask, std::uint8_t(write), std::uint8_t(atomic)};
    }
    if (shared) { ++g_stats.shared; point(me, 0); }
}
void forgetRange(void * p, size_t n) {
    if (!g_cells || !n) return;
    u64 first = reinterpret_cast<u64>(p) >> 3, last = (reinterpret_cast<u64>(p) + n - 1) >> 3;
    for (u64 k = first; k <= last; ++k) if (Cell * c = find(k, false)) c->n = 0;
}

// ---- synchronisation objects -------------------------------------------------

struct Sync {
    void const * addr;
    VC rel;                       // what an acquire of it learns
    int owner; u32 depth; int readers; int once;
};
constexpr size_t SYNCS = 1u << 14;
Sync * g_syncs = nullptr;
Sync & sync(void const volatile * av) {
    void const * a = const_cast<void const *>(av);
    size_t i = mix(reinterpret_cast<u64>(a)) & (SYNCS - 1);
    size_t n = 0;
    while (g_syncs[i].addr && g_syncs[i].addr != a) { i = (i + 1) & (SYNCS - 1); if (++n == SYNCS) die("harness-sync", "too many synchronisation objects"); }
    if (!g_syncs[i].addr) { g_syncs[i].addr = a; g_syncs[i].owner = -1; }
    return g_syncs[i];
}
void acquire(Thread * me, Sync & s) { me->vc.join(s.rel); }
void release(Thread * me, Sync & s) { s.rel.join(me->vc); ++me->vc.c[me->id]; }

Thread * simulated() { return g_on ? t_me : nullptr; }
void syncPoint(Thread * me) { step(me); ++g_stats.syncs; point(me, 1); }

void * threadMain(void * p) {
    Thread * t = static_cast<Thread *>(p);
    t_me = t;
    futexWait(t->go, 0);
    (*g_body)(t->id);
    t->state = DONE;
    schedule(0x100 | u64(t->id));
    t_me = nullptr;
    Thread * n = next(nullptr);
    if (n) handTo(n);
    else {
        for (int i = 0; i < g_n; ++i) if (g_t[i].state == BLOCKED) die("deadlock", "thread %d waits for ever in %s", i, g_t[i].what);
        g_finished.store(1, std::memory_order_release);
        futexWake(g_finished);
    }
    return nullptr;
}
} // namespace

void ownMemory() {
    g_top = static_cast<char *>(mmap(reinterpret_cast<void *>(0x200000000000), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
    if (g_top == MAP_FAILED) { std::perror("mmap"); _exit(99); }
    g_arena = g_top;
}
void mark(char const * what) {
    Thread * me = t_me;
    if (!me) return;
    me->what = what;
    ++me->vc.c[me->id];
    if (me->nmarks < 512) me->marks[me->nmarks++] = {me->vc.c[me->id], what};
}

Stats run(Config const & c, std::function<void(int)> const & body) {
    auto zero = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    if (!g_cells) { g_cells = static_cast<Cell *>(zero(CELLS * sizeof(Cell))); g_syncs = static_cast<Sync *>(zero(SYNCS * sizeof(Sync))); }
    g_cfg = &c; g_body = &body; g_n = c.threads; g_stats = Stats(); g_lowest = 0;
    g_walk = c.walkSeed; g_walkLeft = c.walkMean ? 1 + mix(g_walk) % (2 * c.walkMean) : 0;
    constexpr size_t STACK = 1u << 20;
    for (int i = 0; i < g_n; ++i) {
        Thread & t = g_t[i];
        t.id = i;
        t.lo = static_cast<char *>(zero(STACK)); t.hi = t.lo + STACK;
        t.priority = 1 + (i < int(c.priority.size()) ? c.priority[i] : 0);
        t.vc.c[i] = 1;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, t.lo, STACK);
        if (pthread_create(&t.handle, &at, threadMain, &t)) { std::perror("pthread_create"); _exit(99); }
        pthread_attr_destroy(&at);
    }
    g_on = true;
    handTo(next(nullptr));
    futexWait(g_finished, 0);
    g_on = false;
    for (int i = 0; i < g_n; ++i) pthread_join(g_t[i].handle, nullptr);
    return g_stats;
}
}} // namespace sim::thr

using namespace sim::thr;
using sim::die;
#define PC __builtin_return_address(0)

// ---- instrumentation calls made by the compiler ------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void * a) { access(static_cast<char *>(a), n, false, false, PC); } \
    void __tsan_write##n(void * a) { access(static_cast<char *>(a), n, true, false, PC); } \
    void __tsan_unaligned_read##n(void * a) { access(static_cast<char *>(a), n, false, false, PC); } \
    void __tsan_unaligned_write##n(void * a) { access(static_cast<char *>(a), n, true, false, PC); } \
    void __tsan_volatile_read##n(void * a) { access(static_cast<char *>(a), n, false, false, PC); } \
    void __tsan_volatile_write##n(void * a) { access(static_cast<char *>(a), n, true, false, PC); } \
    void __tsan_read_write##n(void * a) { access(static_cast<char *>(a), n, true, false, PC); } \
    void __tsan_unaligned_read_write##n(void * a) { access(static_cast<char *>(a), n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void * a, size_t n) { access(static_cast<char *>(a), n, false, false, PC); }
void __tsan_write_range(void * a, size_t n) { access(static_cast<char *>(a), n, true, false, PC); }
void __tsan_vptr_update(void ** a, void * v) { access(reinterpret_cast<char *>(a), 8, *a != v, false, PC); }
void __tsan_vptr_read(void ** a) { access(reinterpret_cast<char *>(a), 8, false, false, PC); }
void * __tsan_memcpy(void * d, void const * s, size_t n) { access(static_cast<char const *>(s), n, false, false, PC); access(static_cast<char *>(d), n, true, false, PC); return __builtin_memcpy(d, s, n); }
void * __tsan_memmove(void * d, void const * s, size_t n) { access(static_cast<char const *>(s), n, false, false, PC); access(static_cast<char *>(d), n, true, false, PC); return __builtin_memmove(d, s, n); }
void * __tsan_memset(void * d, int v, size_t n) { access(static_cast<char *>(d), n, true, false, PC); return __builtin_memset(d, v, n); }
}

namespace {
// One simulated atomic operation: a scheduling point before it, then the
// happens-before effect of its memory order, then the operation itself.
enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
bool isAcq(int mo) { return mo == CONSUME || mo == ACQUIRE || mo == ACQ_REL || mo == SEQ_CST; }
bool isRel(int mo) { return mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST; }
void before(void const volatile * a, size_t n, bool write, void const * pc) {
    Thread * me = simulated();
    if (!me) return;
    char const * p = static_cast<char const *>(const_cast<void const *>(a));
    if (p >= me->lo && p < me->hi) return;
    syncPoint(me);
    if (write) me->spin = 0;
    else if (++me->spin > 2000) { me->spin = 0; yieldNow(me); }
    access(p, n, write, true, pc);
}
void loaded(void const volatile * a, int mo) {
    Thread * me = simulated();
    if (!me) return;
    Sync & s = sync(a);
    if (isAcq(mo)) me->vc.join(s.rel); else me->acqFence.join(s.rel);
}
void stored(void const volatile * a, int mo, bool rmw) {
    Thread * me = simulated();
    if (!me) return;
    Sync & s = sync(a);
    if (!rmw) s.rel = VC();
    if (isRel(mo)) release(me, s); else s.rel.join(me->relFence);
}
}
extern "C" {
typedef unsigned __int128 a128; typedef unsigned char u8; typedef unsigned short u16; typedef unsigned long u64l;
#define ATOMICS(bitsn, T) \
    T __tsan_atomic##bitsn##_load(T const volatile * a, int mo) { before(a, sizeof(T), false, PC); T v = *a; loaded(a, mo); return v; } \
    void __tsan_atomic##bitsn##_store(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); *a = v; stored(a, mo, false); } \
    T __tsan_atomic##bitsn##_exchange(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = v; loaded(a, mo); stored(a, mo, true); return o; } \
    T __tsan_atomic##bitsn##_fetch_add(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = T(o + v); loaded(a, mo); stored(a, mo, true); return o; } \
    T __tsan_atomic##bitsn##_fetch_sub(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = T(o - v); loaded(a, mo); stored(a, mo, true); return o; } \
    T __tsan_atomic##bitsn##_fetch_and(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = T(o & v); loaded(a, mo); stored(a, mo, true); return o; } \
    T __tsan_atomic##bitsn##_fetch_or(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = T(o | v); loaded(a, mo); stored(a, mo, true); return o; } \
    T __tsan_atomic##bitsn##_fetch_xor(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = T(o ^ v); loaded(a, mo); stored(a, mo, true); return o; } \
    T __tsan_atomic##bitsn##_fetch_nand(T volatile * a, T v, int mo) { before(a, sizeof(T), true, PC); T o = *a; *a = T(~(o & v)); loaded(a, mo); stored(a, mo, true); return o; } \
    int __tsan_atomic##bitsn##_compare_exchange_strong(T volatile * a, T * e, T v, int mo, int fmo) { before(a, sizeof(T), true, PC); T o = *a; if (o == *e) { *a = v; loaded(a, mo); stored(a, mo, true); return 1; } loaded(a, fmo); *e = o; return 0; } \
    int __tsan_atomic##bitsn##_compare_exchange_weak(T volatile * a, T * e, T v, int mo, int fmo) { return __tsan_atomic##bitsn##_compare_exchange_strong(a, e, v, mo, fmo); } \
    T __tsan_atomic##bitsn##_compare_exchange_val(T volatile * a, T e, T v, int mo, int fmo) { __tsan_atomic##bitsn##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64l) ATOMICS(128, a128)
void __tsan_atomic_thread_fence(int mo) {
    Thread * me = simulated();
    if (!me) return;
    syncPoint(me);
    if (isAcq(mo)) me->vc.join(me->acqFence);
    if (isRel(mo)) { me->relFence = me->vc; ++me->vc.c[me->id]; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- static-initialisation guards ---------------------------------------------------
int __cxa_guard_acquire(unsigned char * g) {
    if (*g) { if (Thread * me = simulated()) acquire(me, sync(g)); return 0; }
    Thread * me = simulated();
    if (!me) return 1;
    syncPoint(me);
    for (;;) {
        Sync & s = sync(g);
        if (*g) { acquire(me, s); return 0; }
        if (s.owner < 0) { s.owner = me->id; acquire(me, s); return 1; }
        if (s.owner == me->id) die("deadlock", "recursive initialisation of a static in %s", me->what);
        block(me, g);
    }
}
void __cxa_guard_release(unsigned char * g) {
    *g = 1;
    if (Thread * me = simulated()) { Sync & s = sync(g); s.owner = -1; release(me, s); wake(g); syncPoint(me); }
}
void __cxa_guard_abort(unsigned char * g) {
    if (Thread * me = simulated()) { Sync & s = sync(g); s.owner = -1; release(me, s); wake(g); syncPoint(me); }
}

// ---- pthread synchronisation ----------------------------------------------------------
#define REAL(name) (reinterpret_cast<decltype(&name)>(real(#name)))
static void * real(char const * n) { void * p = dlsym(RTLD_NEXT, n); if (!p) { std::fprintf(stderr, "sim: no %s\n", n); _exit(99); } return p; }

static int lockMutex(Thread * me, pthread_mutex_t * m, bool wait) {
    syncPoint(me);
    for (;;) {
        Sync & s = sync(m);
        if (s.owner < 0) { s.owner = me->id; s.depth = 1; acquire(me, s); return 0; }
        if (s.owner == me->id) {
            int kind = m->__data.__kind & 3;
            if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; }
            if (!wait) return EBUSY;
            if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
            die("deadlock", "a thread locks a mutex it holds, in %s", me->what);
        }
        if (!wait) return EBUSY;
        block(me, m);
    }
}
static int unlockMutex(Thread * me, pthread_mutex_t * m) {
    Sync & s = sync(m);
    if (s.owner != me->id) return EPERM;
    if (--s.depth == 0) { s.owner = -1; release(me, s); wake(m); }
    syncPoint(me);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t * m) noexcept { Thread * me = simulated(); return me ? lockMutex(me, m, true) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept { Thread * me = simulated(); return me ? lockMutex(me, m, false) : REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_timedlock(pthread_mutex_t * m, timespec const * t) noexcept { Thread * me = simulated(); if (!me) return REAL(pthread_mutex_timedlock)(m, t); int r = lockMutex(me, m, false); return r == EBUSY ? ETIMEDOUT : r; }
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept { Thread * me = simulated(); return me ? unlockMutex(me, m) : REAL(pthread_mutex_unlock)(m); }

static int lockRw(Thread * me, void * l, bool write, bool wait) {
    syncPoint(me);
    for (;;) {
        Sync & s = sync(l);
        if (write ? (s.owner < 0 && !s.readers) : s.owner < 0) { if (write) s.owner = me->id; else ++s.readers; acquire(me, s); return 0; }
        if (!wait) return EBUSY;
        block(me, l);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) noexcept { Thread * me = simulated(); return me ? lockRw(me, l, false, true) : REAL(pthread_rwlock_rdlock)(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) noexcept { Thread * me = simulated(); return me ? lockRw(me, l, true, true) : REAL(pthread_rwlock_wrlock)(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) noexcept { Thread * me = simulated(); return me ? lockRw(me, l, false, false) : REAL(pthread_rwlock_tryrdlock)(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) noexcept { Thread * me = simulated(); return me ? lockRw(me, l, true, false) : REAL(pthread_rwlock_trywrlock)(l); }
int pthread_rwlock_unlock(pthread_rwlock_t * l) noexcept {
    Thread * me = simulated();
    if (!me) return REAL(pthread_rwlock_unlock)(l);
    Sync & s = sync(l);
    if (s.owner == me->id) s.owner = -1; else if (s.readers) --s.readers;
    release(me, s);
    wake(l);
    syncPoint(me);
    return 0;
}
int pthread_once(pthread_once_t * o, void (*f)(void)) {
    Thread * me = simulated();
    if (!me) return REAL(pthread_once)(o, f);
    syncPoint(me);
    for (;;) {
        Sync & s = sync(o);
        if (*o & 2) { acquire(me, s); return 0; }
        if (s.owner < 0) {
            s.owner = me->id;
            acquire(me, s);
            try { f(); } catch (...) { Sync & z = sync(o); z.owner = -1; release(me, z); wake(o); throw; }
            Sync & z = sync(o);
            z.owner = -1; *o = 2; release(me, z); wake(o);
            return 0;
        }
        if (s.owner == me->id) die("deadlock", "recursive one-time initialisation in %s", me->what);
        block(me, o);
    }
}
static int waitCond(Thread * me, pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
    unlockMutex(me, m);
    if (timed) { if (Thread * t = next(me)) { (void)t; yieldNow(me); } lockMutex(me, m, true); return ETIMEDOUT; }
    block(me, c);
    acquire(me, sync(c));
    lockMutex(me, m, true);
    return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { Thread * me = simulated(); return me ? waitCond(me, c, m, false) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, timespec const * t) { Thread * me = simulated(); return me ? waitCond(me, c, m, true) : REAL(pthread_cond_timedwait)(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, timespec const * t) { Thread * me = simulated(); return me ? waitCond(me, c, m, true) : REAL(pthread_cond_clockwait)(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t * c) noexcept { Thread * me = simulated(); if (!me) return REAL(pthread_cond_signal)(c); release(me, sync(c)); wake(c, false); syncPoint(me); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) noexcept { Thread * me = simulated(); if (!me) return REAL(pthread_cond_broadcast)(c); release(me, sync(c)); wake(c); syncPoint(me); return 0; }
int sched_yield() noexcept { if (Thread * me = simulated()) { syncPoint(me); yieldNow(me); } return 0; }
int nanosleep(timespec const *, timespec *) { if (Thread * me = simulated()) { syncPoint(me); yieldNow(me); } return 0; }
int clock_nanosleep(clockid_t, int, timespec const *, timespec *) { if (Thread * me = simulated()) { syncPoint(me); yieldNow(me); } return 0; }
int usleep(useconds_t) { if (Thread * me = simulated()) { syncPoint(me); yieldNow(me); } return 0; }

// ---- malloc: new memory has no past, released memory is written -----------------------
// Memory of the simulated process comes from an arena of its own, so that the
// addresses (and their reuse across threads) are part of the simulation.
void * malloc(size_t n) {
    if (!g_arena) return __libc_malloc(n);
    void * p = arenaAlloc(n, 16);
    if (p && simulated()) forgetRange(p, n);
    return p;
}
void * calloc(size_t k, size_t n) {
    if (!g_arena) return __libc_calloc(k, n);
    size_t m;
    if (__builtin_mul_overflow(k, n, &m)) return nullptr;
    void * p = malloc(m);
    if (p) __builtin_memset(p, 0, m);
    return p;
}
void * memalign(size_t al, size_t n) {
    if (!g_arena) return __libc_memalign(al, n);
    void * p = arenaAlloc(n, al);
    if (p && simulated()) forgetRange(p, n);
    return p;
}
void * aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void ** o, size_t al, size_t n) { void * p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
void free(void * p) {
    if (!p) return;
    if (!inArena(p)) { __libc_free(p); return; }
    if (simulated()) access(static_cast<char *>(p), head(p).size, true, false, PC);
    arenaFree(p);
}
void * realloc(void * p, size_t n) {
    if (!p) return malloc(n);
    if (!inArena(p)) { if (!g_arena) return __libc_realloc(p, n); }
    else if (!n) { free(p); return nullptr; }
    size_t old = inArena(p) ? head(p).size : malloc_usable_size(p);
    void * q = malloc(n);
    if (!q) return nullptr;
    __builtin_memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}

// ---- C library calls made by the library with pointers to its data ------------------
static bool own(void const * pc) { return pc >= &__executable_start && pc < &etext; }
size_t strlen(char const * s) { size_t n = 0; while (s[n]) ++n; if (own(PC)) access(s, n + 1, false, false, PC); return n; }
char * strcpy(char * d, char const * s) { size_t n = 0; while (s[n]) ++n; if (own(PC)) { access(s, n + 1, false, false, PC); access(d, n + 1, true, false, PC); } for (size_t i = 0; i <= n; ++i) d[i] = s[i]; return d; }
int vsnprintf(char * d, size_t n, char const * f, va_list ap) {
    auto fn = reinterpret_cast<int (*)(char *, size_t, char const *, va_list)>(real("vsnprintf"));
    int r = fn(d, n, f, ap);
    if (own(PC) && d && n && r >= 0) access(d, size_t(r) + 1 < n ? size_t(r) + 1 : n, true, false, PC);
    return r;
}
int snprintf(char * d, size_t n, char const * f, ...) {
    auto fn = reinterpret_cast<int (*)(char *, size_t, char const *, va_list)>(real("vsnprintf"));
    va_list ap; va_start(ap, f); int r = fn(d, n, f, ap); va_end(ap);
    if (own(PC) && d && n && r >= 0) access(d, size_t(r) + 1 < n ? size_t(r) + 1 : n, true, false, PC);
    return r;
}
int sprintf(char * d, char const * f, ...) {
    auto fn = reinterpret_cast<int (*)(char *, char const *, va_list)>(real("vsprintf"));
    va_list ap; va_start(ap, f); int r = fn(d, f, ap); va_end(ap);
    if (own(PC) && r >= 0) access(d, size_t(r) + 1, true, false, PC);
    return r;
}
}
