// C06 and C07: library calls under simulated memory exhaustion.
#include "calls.h"

using namespace sim;
using namespace simlib;

namespace {

struct Memory : World {
    int groups; bool pixels;
    explicit Memory(bool px) : groups(px ? G_PIXEL : G_REGION), pixels(px) {}

    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        genContext(r, p);
        int n = r.range(2, thorough ? 30 : 10);
        for (int i = 0; i < n; ++i) {
            u64 k = r.next();
            // Arguments: the call, its 8 arguments, sampling seed, one-shot/persistent, cold start.
            std::vector<u64> a = {callIndex(groups, k % calls().size())};
            for (int j = 0; j < 8; ++j) a.push_back(r.chance(0.5) ? r.below(64) : r.next());
            a.push_back(r.next()); a.push_back(r.below(2)); a.push_back(i == 0 && r.chance(0.5) ? 1 + r.below(6) : 0);
            p.add("call", a);
        }
        if (!pixels && r.chance(0.5)) for (int i = 0; i < 3; ++i) { GenOptions o; genSizes(r, o, 200, 0, 20); Spec s = genRegion(r, o); s.insert(s.begin(), {r.next(), r.below(2)}); p.add("build", s); }
        return p;
    }
    std::vector<Op> simpler(Op const & op) override { if (op.name == "build") return {}; return simplerCallOp(op); }

    // One attempt with the k-th allocation failing. Returns whether it threw bad_alloc.
    template <typename F> bool attempt(Run & run, char const * name, u64 k, int mode, u64 want, bool checkResult, F && f) {
        u64 got = 0; bool threw = false;
        env::armFailure(k, mode);
        try { got = f(); }
        catch (std::bad_alloc const &) { threw = true; }
        catch (...) { env::disarm(); throw; }
        u64 fired = env::disarm();
        if (fired) { run.count(mode ? "fault.memory_exhausted_persistently" : "fault.allocation_failed"); run.nontrivial = true; }
        if (threw && !fired) run.fail("spurious-bad-alloc", "%s threw std::bad_alloc although memory was available", name);
        if (!threw && checkResult && got != want) run.fail("wrong-result", "%s returned a different result when allocation %llu failed, instead of reporting the failure", name, (unsigned long long)k);
        if (!threw && fired) run.count("probe.failure_absorbed");
        return threw;
    }

    template <typename F> void probe(Run & run, char const * name, u64 seed, int mode, u64 cold, u64 (*finger)(void *), void * arg, F && f) {
        u64 before = finger(arg);
        auto unchanged = [&](u64 k) { if (finger(arg) != before) run.fail("operand-changed", "%s changed an object it was only given to read when allocation %llu failed", name, (unsigned long long)k); };
        std::vector<std::pair<u64, bool>> coldResults;
        u64 coldThrew = 0;
        if (cold) { coldThrew = attempt(run, name, cold, mode, 0, false, f); run.count("fault.cold_first_call"); unchanged(cold); }
        u64 count0, want;
        env::resetAllocCount();
        want = f();                        // reference
        count0 = env::allocCount();
        unchanged(0);
        env::resetAllocCount();
        u64 live = env::liveBlocks();
        u64 again = f();
        u64 n = env::allocCount();
        if (again != want) run.fail("not-repeatable", "%s gives different results in two fault-free calls%s", name, cold ? " after a failed first call" : "");
        if (env::liveBlocks() != live) run.fail("leak", "%s leaks %lld blocks even without faults", name, (long long)(env::liveBlocks() - live));
        (void)count0; (void)coldThrew;
        run.event("%s: %llu allocations, result %016llx", name, (unsigned long long)n, (unsigned long long)want);
        run.log.u(want);
        Hash st; st.s(name); st.u(n); run.state(st.h);
        Rng r(seed);
        std::vector<u64> ks;
        u64 limit = 14;
        if (n <= limit) for (u64 k = 1; k <= n; ++k) ks.push_back(k);
        else { for (u64 k = 1; k <= 3; ++k) { ks.push_back(k); ks.push_back(n + 1 - k); } for (u64 k = 0; k + 6 < limit; ++k) ks.push_back(1 + r.below(n)); }
        for (u64 k : ks) {
            u64 l = env::liveBlocks(), lb = env::liveBytes();
            bool threw = attempt(run, name, k, mode, want, true, f);
            if (env::liveBlocks() != l) run.fail("leak", "%s leaks %lld blocks (%lld bytes) when allocation %llu of %llu fails", name, (long long)(env::liveBlocks() - l), (long long)(env::liveBytes() - lb), (unsigned long long)k, (unsigned long long)n);
            unchanged(k);
            run.event("  allocation %llu: %s", (unsigned long long)k, threw ? "std::bad_alloc" : "completed");
        }
        // A limit on the size of any one allocation.
        if (n) { attempt(run, name, 64 << r.below(8), 2, want, true, f); run.count("fault.large_allocations_refused"); unchanged(0); }
        u64 last = f();
        if (last != want) run.fail("retry-differs", "%s gives a different result after failed attempts", name);
        unchanged(0);
        ++run.simtime;
        run.count("probe.calls");
        if (n) run.count("probe.allocating_calls");
    }

    void execute(Plan const & plan, Run & run) override {
        Ctx ctx;
        for (auto const & op : plan.ops) if (isContextOp(op)) loadContext(op, ctx);
        completeContext(ctx);
        auto finger = [](void * p) { return fingerprint(*static_cast<Ctx *>(p)); };
        for (auto const & op : plan.ops) {
            if (op.name == "call") {
                Call const & c = calls()[op.arg(0) % calls().size()];
                std::vector<u64> args(op.a.begin() + 1, op.a.begin() + std::min<size_t>(9, op.a.size()));
                probe(run, c.name, op.arg(9), int(op.arg(10) & 1), op.arg(11) % 8, finger, &ctx, [&] { return invoke(c, ctx, args); });
            } else if (op.name == "build" && op.a.size() > 2) {
                Spec s(op.a.begin() + 2, op.a.end());
                probe(run, "region.construct", op.arg(0), int(op.arg(1) & 1), 0, finger, &ctx, [&] {
                    Hash h;
                    obs(h, [&](Hash & g) { RegionPtr r = build(s); value(g, *r); });
                    return h.h;
                });
            }
        }
    }
};

WorldInfo info6 = {"C06", [] { return std::unique_ptr<World>(new Memory(false)); },
    "a run makes a random set of regions and calls 2-30 random region operations on them, each fault-free and then with chosen allocations (all if there are few) failing one-shot or persistently; non-trivial: at least one allocation failure fired inside a call",
    "all region classes, encode/decode, compounds, hulls, relations, bounds, with AddressSanitizer",
    "allocator (fails on command, tracks blocks)", "distinct (call, number of allocations)", 4000, 120000, nullptr};
WorldInfo info7 = {"C07", [] { return std::unique_ptr<World>(new Memory(true)); },
    "a run makes random regions, pixelizations and a chunker and calls 2-30 random pixel and chunk queries, each fault-free and then with chosen allocations failing one-shot or persistently; non-trivial: at least one allocation failure fired inside a call",
    "HTM, Q3C and modified Q3C pixelizations, Chunker, RangeSet, with AddressSanitizer",
    "allocator (fails on command, tracks blocks)", "distinct (call, number of allocations)", 2000, 60000, nullptr};
RegisterWorld r6(&info6), r7(&info7);

} // namespace
