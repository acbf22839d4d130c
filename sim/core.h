// Core of the deterministic simulator: PRNG, plans, runs, outcomes.
//
// A *plan* is the complete, explicit description of one simulated execution:
// every operation, argument, fault and scheduling decision. It is produced from
// one PRNG seeded by (VERIF_SEED, run index) and is what a replay file holds.
// Executing a plan is a pure function of the plan and of the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sim {

using u64 = std::uint64_t;
using Bytes = std::vector<std::uint8_t>;

inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed ^ 0x5851f42d4c957f2dull)) {}
    u64 next() { return mix(s += 0x9e3779b97f4a7c15ull); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }  // inclusive
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * real(); }
    bool chance(double p) { return real() < p; }
    template <typename T> T const & pick(std::vector<T> const & v) { return v[below(v.size())]; }
    template <typename T, size_t N> T const & pick(T const (&v)[N]) { return v[below(N)]; }
};

inline u64 bits(double d) { u64 u; std::memcpy(&u, &d, 8); return u; }
inline double dbl(u64 u) { double d; std::memcpy(&d, &u, 8); return d; }

struct Hash {
    u64 h = 0xcbf29ce484222325ull;
    void u(u64 x) { h = mix(h ^ x) + 0x9e37; }
    void d(double x) { u(x != x ? 0x7ff8000000000000ull : bits(x)); }
    void s(char const * p, size_t n) { u(n); for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 0x100000001b3ull; u(n); }
    void s(std::string const & x) { s(x.data(), x.size()); }
    void b(Bytes const & x) { s(reinterpret_cast<char const *>(x.data()), x.size()); }
};

struct Op {
    std::string name;
    std::vector<u64> a;
    u64 arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};

struct Plan {
    std::vector<Op> ops;
    void add(std::string name, std::vector<u64> a = {}) { ops.push_back({std::move(name), std::move(a)}); }
    std::string text() const;
};

// A violation of the property under simulation. `cls` identifies the kind of
// violation (it is kept the same while minimising); `detail` is for people.
struct Violation {
    std::string cls, detail;
};

#define SIM_FMT(buf, fmt) \
    char buf[1500]; va_list ap_; va_start(ap_, fmt); vsnprintf(buf, sizeof buf, fmt, ap_); va_end(ap_)

struct Run {
    Hash log;                 // hash of the event log of the run
    bool verbose = false;     // print events (replay -v); never influences the run
    bool nontrivial = false;  // set by the world once the run exercised its point
    u64 simtime = 0;          // simulated time units (operations / ticks), world-defined
    void event(char const * fmt, ...) __attribute__((format(printf, 2, 3)));
    void count(char const * name, u64 n = 1);   // fault / probe counters (evidence only)
    void state(u64 h);                          // a distinct abstract state was reached
    [[noreturn]] void fail(char const * cls, char const * fmt, ...) __attribute__((format(printf, 3, 4)));
};

// Run `fn` in a child process forked here (a restart boundary: the child starts
// from the memory of the caller and everything it does to memory is lost, except
// for shared memory). The event log continues through it. A violation or death
// in the child is the outcome of the whole run.
void isolated(Run & run, std::function<void()> const & fn);
void * sharedBytes(size_t n);
// End the simulated process here with a violation (usable where nothing may be thrown).
[[noreturn]] void die(char const * cls, char const * fmt, ...) __attribute__((format(printf, 2, 3)));

struct World {
    virtual ~World() {}
    virtual Plan generate(Rng & rng, bool thorough) = 0;
    virtual void execute(Plan const & plan, Run & run) = 0;
    // Simpler variants of one operation, for the minimiser.
    virtual std::vector<Op> simpler(Op const &) { return {}; }
    virtual u64 stepBudget() { return 400000000ull; }
};

using WorldFactory = std::unique_ptr<World> (*)();
struct WorldInfo {
    char const * property; WorldFactory make; char const * rule; char const * real; char const * stub;
    char const * stateMeasure; int quickRuns, thoroughRuns;
    WorldInfo const * next;
};
extern WorldInfo const * g_worlds;
struct RegisterWorld {
    explicit RegisterWorld(WorldInfo * w) { w->next = g_worlds; g_worlds = w; }
};

// ---- environment controlled by the simulator -------------------------------

namespace env {
// Allocator seam: global operator new/delete.
void track(bool on);            // is the code under test running?
bool tracking();
void armFailure(u64 k, int mode);   // fail the k-th tracked allocation (1-based); mode 0 one-shot, 1 persistent, 2 size limit k
u64 disarm();                   // returns the number of failures that fired
u64 fired();
u64 allocCount();               // tracked allocations since resetAllocCount
u64 allocBytes();
void resetAllocCount();
u64 liveBlocks();               // tracked blocks not yet released
u64 liveBytes();
void setGarbage(u64 seed);      // pattern new memory is filled with
void setRecycle(bool on);       // hand released blocks out again at once (off: never, so that stale uses are seen)
u64 reused();
void setPadding(u64 seed);      // nonzero: vary heap placement
// Step counter: edges of the library executed (deterministic "CPU time").
extern u64 steps;
extern u64 stepLimit;
// Stack garbage: overwrite `n` bytes of unused stack with a pattern.
void dirtyStack(u64 seed, size_t n);
}

// Run code of the library under test: allocations inside are tracked.
template <typename F> auto sut(F && f) -> decltype(f()) {
    struct Scope { bool old; Scope() : old(env::tracking()) { env::track(true); } ~Scope() { env::track(old); } } s;
    return f();
}
struct Untracked { bool old; Untracked() : old(env::tracking()) { env::track(false); } ~Untracked() { env::track(old); } };

} // namespace sim
