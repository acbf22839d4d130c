// Linked into the simulated build of the Python extension module: counts the
// control-flow steps of library and binding code, and makes the allocations of
// that code (operator new) observable and able to fail.
#include <Python.h>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {
constexpr size_t COV_SLOTS = 1u << 17;
unsigned char * g_cov = nullptr;
uint64_t g_steps = 0, g_limit = ~0ull;
int64_t g_live = 0, g_allocs = 0, g_failAt = -1, g_injected = 0;
bool g_track = false;
size_t g_spare = 0;         // allocations of this size never fail

void * take(size_t n);
void give(void * p);

void * allocate(size_t n) {
    if (g_track && n != g_spare) {
        ++g_allocs;
        if (g_failAt >= 0 && g_failAt-- == 0) { ++g_injected; return nullptr; }
    }
    void * p = take(n);
    if (p) ++g_live;
    return p;
}
void release(void * p) { if (p) { --g_live; give(p); } }
}

// Shared with forked children, so that coverage of all runs adds up.
EXPORT void simpy_init() {
    void * p = mmap(nullptr, COV_SLOTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p != MAP_FAILED) g_cov = static_cast<unsigned char *>(p);
}
EXPORT uint64_t simpy_edges() { uint64_t n = 0; if (g_cov) for (size_t i = 0; i < COV_SLOTS; ++i) n += g_cov[i]; return n; }
EXPORT uint64_t simpy_steps() { return g_steps; }
EXPORT void simpy_limit(uint64_t n) { g_limit = n == ~0ull ? n : g_steps + n; }
EXPORT int64_t simpy_live() { return g_live; }
EXPORT int64_t simpy_allocs() { return g_allocs; }
EXPORT int64_t simpy_injected() { return g_injected; }

// The simulated memory: from now on, objects of up to a kilobyte, Python's and
// the library's, take addresses that only what happens from now on determines,
// and the address of an object that is gone is the next to be used. Memory that
// is free is poisoned.
namespace arena {
constexpr size_t SIZE = size_t(1) << 32, PAGE = 1 << 16, SMALL = 1024;
char * base = nullptr, * next = nullptr;
unsigned char pages[SIZE / PAGE];
struct Free { Free * next; };
Free * lists[SMALL / 16 + 1];
PyMemAllocatorEx old[2];

bool has(void * p) { return base && p >= base && p < base + SIZE; }
size_t size(void * p) { return pages[(static_cast<char *>(p) - base) / PAGE] * size_t(16); }

void * allocate(size_t n) {
    size_t k = n ? (n + 15) / 16 : 1;
    if (!lists[k]) {
        if (next == base + SIZE) return nullptr;
        pages[(next - base) / PAGE] = k;
        for (size_t i = PAGE / (16 * k); i > 0; --i) {
            Free * f = reinterpret_cast<Free *>(next + (i - 1) * 16 * k);
            f->next = lists[k];
            lists[k] = f;
            __asan_poison_memory_region(f, 16 * k);
        }
        next += PAGE;
    }
    Free * f = lists[k];
    __asan_unpoison_memory_region(f, 16 * k);
    lists[k] = f->next;
    if (n < 16 * k) __asan_poison_memory_region(reinterpret_cast<char *>(f) + n, 16 * k - n);
    return f;
}

void release(void * p) {
    size_t n = size(p);
    __asan_unpoison_memory_region(p, n);
    Free * f = static_cast<Free *>(p);
    f->next = lists[n / 16];
    lists[n / 16] = f;
    __asan_poison_memory_region(p, n);
}

void * pyMalloc(void * ctx, size_t n) {
    PyMemAllocatorEx & o = *static_cast<PyMemAllocatorEx *>(ctx);
    return n <= SMALL ? allocate(n) : o.malloc(o.ctx, n);
}
void * pyCalloc(void * ctx, size_t m, size_t n) {
    PyMemAllocatorEx & o = *static_cast<PyMemAllocatorEx *>(ctx);
    if (m > SMALL || n > SMALL || m * n > SMALL) return o.calloc(o.ctx, m, n);
    void * p = allocate(m * n);
    if (p) std::memset(p, 0, m * n);
    return p;
}
void pyFree(void * ctx, void * p) {
    PyMemAllocatorEx & o = *static_cast<PyMemAllocatorEx *>(ctx);
    has(p) ? release(p) : o.free(o.ctx, p);
}
void * pyRealloc(void * ctx, void * p, size_t n) {
    PyMemAllocatorEx & o = *static_cast<PyMemAllocatorEx *>(ctx);
    if (!p) return pyMalloc(ctx, n);
    if (!has(p)) return o.realloc(o.ctx, p, n);
    size_t was = size(p);
    void * q = pyMalloc(ctx, n);
    if (!q) return nullptr;
    __asan_unpoison_memory_region(p, was);
    std::memcpy(q, p, was < n ? was : n);
    release(p);
    return q;
}
}

namespace {
void * take(size_t n) { return arena::base && n <= arena::SMALL ? arena::allocate(n) : std::malloc(n ? n : 1); }
void give(void * p) { arena::has(p) ? arena::release(p) : std::free(p); }
}

EXPORT void simpy_arena() {
    void * p = mmap(reinterpret_cast<void *>(0x700000000000), arena::SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    arena::base = arena::next = static_cast<char *>(p);
    PyMemAllocatorDomain domains[] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    for (int i = 0; i < 2; ++i) {
        PyMem_GetAllocator(domains[i], &arena::old[i]);
        PyMemAllocatorEx a = {&arena::old[i], arena::pyMalloc, arena::pyCalloc, arena::pyRealloc, arena::pyFree};
        PyMem_SetAllocator(domains[i], &a);
    }
}
EXPORT void simpy_track(int on, int64_t failAt) { g_track = on; g_failAt = failAt; g_spare = 0; }
// Of the allocations of another size than `spare`, the one numbered `failAt` (from 0) fails.
EXPORT void simpy_exhaust(int64_t failAt, size_t spare) { g_track = true; g_failAt = failAt; g_spare = spare; }

__attribute__((visibility("default"))) void * operator new(size_t n) { void * p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
__attribute__((visibility("default"))) void * operator new[](size_t n) { void * p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
__attribute__((visibility("default"))) void * operator new(size_t n, std::nothrow_t const &) noexcept { return allocate(n); }
__attribute__((visibility("default"))) void * operator new[](size_t n, std::nothrow_t const &) noexcept { return allocate(n); }
__attribute__((visibility("default"))) void operator delete(void * p) noexcept { release(p); }
__attribute__((visibility("default"))) void operator delete[](void * p) noexcept { release(p); }
__attribute__((visibility("default"))) void operator delete(void * p, size_t) noexcept { release(p); }
__attribute__((visibility("default"))) void operator delete[](void * p, size_t) noexcept { release(p); }
__attribute__((visibility("default"))) void operator delete(void * p, std::nothrow_t const &) noexcept { release(p); }
__attribute__((visibility("default"))) void operator delete[](void * p, std::nothrow_t const &) noexcept { release(p); }

EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t * start, uint32_t * stop) {
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t * x = start; x < stop; ++x) *x = ++n;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t * guard) {
    if (g_cov) g_cov[*guard % COV_SLOTS] = 1;
    if (++g_steps > g_limit) {
        g_limit = ~0ull;
        static char const msg[] = "\nSIM no-progress\n";
        if (write(2, msg, sizeof msg - 1) < 0) {}
        _exit(71);
    }
}
