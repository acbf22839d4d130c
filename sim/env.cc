// Allocator seam, garbage memory, and the library step counter.
#include "core.h"
#include <cstdlib>
#include <new>
#include <alloca.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define SIM_POISON(p, n) __asan_poison_memory_region(p, n)
#define SIM_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#endif
#endif
#ifndef SIM_POISON
#define SIM_POISON(p, n) (void)0
#define SIM_UNPOISON(p, n) (void)0
#endif

namespace sim { namespace env {

u64 steps = 0, stepLimit = ~0ull;

namespace {
#ifdef SIM_THREADS      // tracking and failures are per simulated thread
#define SIM_TLS thread_local
#else
#define SIM_TLS
#endif
SIM_TLS bool g_track = false;
SIM_TLS u64 g_k = 0, g_count = 0, g_fired = 0;
SIM_TLS int g_mode = -1;
u64 g_total = 0, g_bytes = 0, g_live = 0, g_liveBytes = 0;
u64 g_garbage = 0x5bd1e995, g_padding = 0;

// Open-addressing table of live tracked blocks (no allocation of its own).
constexpr size_t TABLE = 1u << 20;
struct Ent { void * p; size_t n; size_t cap; };     // cap: nonzero for blocks that are reused
Ent * table() { static Ent * t = static_cast<Ent *>(std::calloc(TABLE, sizeof(Ent))); return t; }
size_t g_used = 0;
void * const TOMB = reinterpret_cast<void *>(1);
size_t slot(void * p) { return mix(reinterpret_cast<u64>(p)) & (TABLE - 1); }
void put(void * p, size_t n, size_t cap) {
    if (g_used > TABLE / 2) {   // drop tombstones
        Ent * old = table();
        Ent * keep = static_cast<Ent *>(std::calloc(g_live + 1, sizeof(Ent)));
        size_t m = 0;
        for (size_t j = 0; j < TABLE; ++j) if (old[j].p && old[j].p != TOMB) keep[m++] = old[j];
        std::memset(old, 0, TABLE * sizeof(Ent));
        g_used = 0;
        for (size_t j = 0; j < m; ++j) put(keep[j].p, keep[j].n, keep[j].cap);
        std::free(keep);
        if (g_used > TABLE / 2) { std::fprintf(stderr, "sim: block table full\n"); _exit(99); }
    }
    size_t i = slot(p);
    Ent * t = table();
    while (t[i].p && t[i].p != TOMB) i = (i + 1) & (TABLE - 1);
    if (!t[i].p) ++g_used;
    t[i] = {p, n, cap};
}
bool take(void * p, size_t & n, size_t & cap) {
    if (!g_used) return false;
    size_t i = slot(p);
    Ent * t = table();
    for (; t[i].p; i = (i + 1) & (TABLE - 1))
        if (t[i].p == p) { n = t[i].n; cap = t[i].cap; t[i].p = TOMB; return true; }
    return false;
}
void fill(void * p, size_t n) {
    unsigned char * c = static_cast<unsigned char *>(p);
    u64 x = g_garbage;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::memcpy(c + i, &x, 8); }
    for (; i < n; ++i) c[i] = static_cast<unsigned char>(x >> (8 * (i & 7)));
}

// Prompt reuse of released blocks, most recently released first, by size class.
bool g_recycle = false;
u64 g_reused = 0;
constexpr size_t CLASSES = 256, DEPTH = 256;      // blocks of up to 4 KiB
struct Class { size_t n; void * p[DEPTH]; };
Class * classes() { static Class * c = static_cast<Class *>(std::calloc(CLASSES, sizeof(Class))); return c; }

void * allocate(size_t n, bool nothrow, size_t align = 0) {
    if (g_track) {
        ++g_count; ++g_total; g_bytes += n;
        bool fail = false;
        if (g_mode == 0) fail = (g_count == g_k);
        else if (g_mode == 1) fail = (g_count >= g_k);
        else if (g_mode == 2) fail = (n >= g_k);
        if (fail) {
            ++g_fired;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    size_t cap = 0;
    if (g_recycle && g_track && !align && n <= 16 * (CLASSES - 1)) {
        cap = n ? (n + 15) & ~size_t(15) : 16;
        Class & c = classes()[cap / 16];
        if (c.n) {
            void * q = c.p[--c.n];
            SIM_UNPOISON(q, n);
            fill(q, n); put(q, n, cap); ++g_live; g_liveBytes += n; ++g_reused;
            return q;
        }
    }
    size_t pad = 0;
    if (g_padding) { g_padding = mix(g_padding); pad = g_padding % 5 * 16; }
    // Padding varies placement through a dummy block; it is not part of the returned block.
    void * dummy = pad ? std::malloc(pad) : nullptr;
    void * p = nullptr;
    if (align) { if (posix_memalign(&p, align < sizeof(void *) ? sizeof(void *) : align, n ? n : 1)) p = nullptr; }
    else p = std::malloc(cap ? cap : n ? n : 1);
    std::free(dummy);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (cap > n) SIM_POISON(static_cast<char *>(p) + n, cap - n);
    if (g_track) { fill(p, n); put(p, n, cap); ++g_live; g_liveBytes += n; }
    return p;
}
void release(void * p) {
    if (!p) return;
    size_t n, cap;
    if (g_used && take(p, n, cap)) {
        --g_live; g_liveBytes -= n;
        std::memset(p, 0xDD, n);
        if (cap) {
            Class & c = classes()[cap / 16];
            if (g_recycle && c.n < DEPTH) { c.p[c.n++] = p; SIM_POISON(p, cap); return; }
            SIM_UNPOISON(p, cap);
        }
    }
    std::free(p);
}
} // namespace

void track(bool on) { g_track = on; }
bool tracking() { return g_track; }
void armFailure(u64 k, int mode) { g_k = k; g_mode = mode; g_count = 0; g_fired = 0; }
u64 disarm() { g_mode = -1; u64 f = g_fired; g_fired = 0; return f; }
u64 fired() { return g_fired; }
u64 allocCount() { return g_total; }
u64 allocBytes() { return g_bytes; }
void resetAllocCount() { g_total = 0; g_bytes = 0; }
u64 liveBlocks() { return g_live; }
u64 liveBytes() { return g_liveBytes; }
void setGarbage(u64 s) { g_garbage = mix(s); }
void setRecycle(bool on) { g_recycle = on; }
u64 reused() { return g_reused; }
void setPadding(u64 s) { g_padding = s; }

__attribute__((noinline, no_sanitize("address"))) void dirtyStack(u64 seed, size_t n) {
    // Written and abandoned: the next calls find this pattern in their frames.
    volatile unsigned char * p = static_cast<volatile unsigned char *>(alloca(n));
    u64 x = mix(seed);
    for (size_t i = 0; i < n; ++i) {
        if (!(i & 7)) x = x * 6364136223846793005ull + 1442695040888963407ull;
        p[i] = static_cast<unsigned char>(x >> (8 * (i & 7)));
    }
    asm volatile("" ::: "memory");
}
}} // namespace sim::env

void * operator new(size_t n) { return sim::env::allocate(n, false); }
void * operator new[](size_t n) { return sim::env::allocate(n, false); }
void * operator new(size_t n, std::nothrow_t const &) noexcept { return sim::env::allocate(n, true); }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { return sim::env::allocate(n, true); }
void * operator new(size_t n, std::align_val_t a) { return sim::env::allocate(n, false, static_cast<size_t>(a)); }
void * operator new[](size_t n, std::align_val_t a) { return sim::env::allocate(n, false, static_cast<size_t>(a)); }
void * operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return sim::env::allocate(n, true, static_cast<size_t>(a)); }
void operator delete(void * p) noexcept { sim::env::release(p); }
void operator delete[](void * p) noexcept { sim::env::release(p); }
void operator delete(void * p, size_t) noexcept { sim::env::release(p); }
void operator delete[](void * p, size_t) noexcept { sim::env::release(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { sim::env::release(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { sim::env::release(p); }
void operator delete(void * p, std::align_val_t) noexcept { sim::env::release(p); }
void operator delete[](void * p, std::align_val_t) noexcept { sim::env::release(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { sim::env::release(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { sim::env::release(p); }
