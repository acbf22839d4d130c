// C11: the same calls with equal arguments in two processes with different
// histories, heap contents, heap placement and stack contents.
#include "calls.h"
#include <algorithm>
#include <numeric>

using namespace sim;
using namespace simlib;

namespace {

constexpr int ALL = G_REGION | G_PIXEL | G_MISC | G_STREAM;
constexpr u64 MAXCALLS = 400;

// Overwrite the value of a region (of one of the simple types) where it is.
bool assignRegion(sg::Region & a, sg::Region const & b) {
    using namespace sg;
    if (typeOf(a) != typeOf(b)) return false;
    return sut([&] {
        if (auto p = dynamic_cast<Box *>(&a)) { *p = dynamic_cast<Box const &>(b); return true; }
        if (auto p = dynamic_cast<Circle *>(&a)) { *p = dynamic_cast<Circle const &>(b); return true; }
        if (auto p = dynamic_cast<Ellipse *>(&a)) { *p = dynamic_cast<Ellipse const &>(b); return true; }
        if (auto p = dynamic_cast<ConvexPolygon *>(&a)) { *p = dynamic_cast<ConvexPolygon const &>(b); return true; }
        return false;
    });
}
// An operation of the context with another value of the same shape.
Op other(Op const & op) {
    Op t = op;
    if (op.name == "reg") t.a = twisted(op.a);
    else if (op.name == "pts") { if (t.a.size() >= 6) std::rotate(t.a.begin(), t.a.begin() + 3, t.a.end()); }
    else if (op.name == "nums") { if (!t.a.empty()) std::rotate(t.a.begin(), t.a.begin() + 1, t.a.end()); }
    else if (op.name == "set") { for (auto & x : t.a) x += 7; }
    else if (op.name == "pix" && t.a.size() > 1) t.a[1] = t.a[1] ? t.a[1] - 1 : 1;
    else if (op.name == "chk" && t.a.size() > 1) { t.a[0] += 1; }
    return t;
}

struct Pure : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        genContext(r, p);
        p.add("env", {r.next(), r.next(), r.next(), r.next()});
        int n = r.range(4, thorough ? 80 : 40);
        std::vector<u64> few;    // swarm: some runs concentrate on a few calls
        for (int i = r.range(1, 8); i > 0; --i) few.push_back(r.below(calls().size()));
        bool swarm = r.chance(0.5);
        std::vector<u64> last;
        for (int i = 0; i < n; ++i) {
            std::vector<u64> a;
            if (!last.empty() && r.chance(0.3)) { a = last; a[1 + r.below(8)] = r.below(64); }   // a near-repeat of the previous call
            else { a = {swarm ? r.pick(few) : r.below(calls().size())}; for (int j = 0; j < 8; ++j) a.push_back(r.chance(0.6) ? r.below(64) : r.next()); }
            last = a;
            if (r.chance(0.35)) { a.push_back(r.chance(0.4) ? 1 + r.below(10) : 0); p.add("noise", a); }
            else p.add("call", a);
        }
        return p;
    }
    std::vector<Op> simpler(Op const & op) override { if (op.name == "env") return {}; return simplerCallOp(op); }

    void execute(Plan const & plan, Run & run) override {
        std::vector<Op const *> cs, noise;
        u64 seed = 1, g = 2, pad = 3, st = 4;
        for (auto const & op : plan.ops) {
            if (op.name == "call" && cs.size() < MAXCALLS) cs.push_back(&op);
            else if (op.name == "noise") noise.push_back(&op);
            else if (op.name == "env") { seed = op.arg(0); g = op.arg(1); pad = op.arg(2); st = op.arg(3); }
        }
        struct Shared { u64 h[MAXCALLS]; u64 ctx; };
        Shared * sh = static_cast<Shared *>(sharedBytes(sizeof(Shared)));
        auto load = [&](Ctx & c) { for (auto const & op : plan.ops) if (isContextOp(op)) loadContext(op, c); completeContext(c); };
        auto go = [&](Op const & op, Ctx const & c) {
            std::vector<u64> args(op.a.begin() + 1, op.a.begin() + std::min<size_t>(9, op.a.size()));
            return invoke(calls()[op.arg(0) % calls().size()], c, args);
        };
        auto name = [&](Op const & op) { return calls()[op.arg(0) % calls().size()].name; };
        if (cs.empty()) return;
        // First process: each call once, in order, on a quiet heap.
        isolated(run, [&] {
            env::setGarbage(1);
            Ctx c; load(c);
            sh->ctx = fingerprint(c);
            for (size_t i = 0; i < cs.size(); ++i) { ++run.simtime; sh->h[i] = go(*cs[i], c); run.event("%s = %016llx", name(*cs[i]), (unsigned long long)sh->h[i]); }
            if (fingerprint(c) != sh->ctx) run.fail("argument-changed", "a call changed an object it was only given to read");
        });
        // Second process: other order, other calls in between (some failing), dirty memory, other addresses.
        isolated(run, [&] {
            env::setGarbage(g); env::setPadding(pad | 1);
            Rng r(seed);
            bool recycle = r.chance(0.7);
            env::setRecycle(recycle);
            u64 reused0 = env::reused();
            if (r.chance(0.7)) {      // other objects, asked the same questions, lived where ours will be
                std::unique_ptr<Ctx> decoy(new Ctx);
                for (auto const & op : plan.ops) if (isContextOp(op)) loadContext(other(op), *decoy);
                completeContext(*decoy);
                for (size_t k = r.range(1, 2 * cs.size()); k > 0; --k) go(*cs[r.below(cs.size())], *decoy);
                run.count("probe.decoy_objects_first");
            }
            Ctx old; load(old);
            std::unique_ptr<Ctx> dead(new Ctx); load(*dead);
            Ctx c; load(c);
            if (fingerprint(c) != sh->ctx || fingerprint(old) != sh->ctx) run.fail("history-dependent", "the same constructor calls give different objects in another process");
            dead.reset();     // its memory is free for reuse
            std::vector<Op const *> regs, sets;
            { size_t k = 0; for (auto const & op : plan.ops) if (op.name == "reg" && k < c.regions.size()) { RegionPtr q = tryBuild(op.a); if (q) { regs.push_back(&op); ++k; } } for (auto const & op : plan.ops) if (op.name == "set") sets.push_back(&op); }
            // Another object takes the place of ours (or its value), answers the same call, and gives the place back.
            auto impostor = [&](Op const & call) {
                if (!regs.empty() && r.chance(0.8)) {
                    size_t j = r.below(regs.size());
                    Spec t = twisted(regs[j]->a);
                    if (r.chance(0.5)) {
                        sut([&] { c.regions[j].reset(); });
                        c.regions[j] = tryBuild(t);
                        if (c.regions[j]) go(call, c);
                        sut([&] { c.regions[j].reset(); });
                        c.regions[j] = tryBuild(regs[j]->a);
                    } else {
                        RegionPtr q = tryBuild(t), own = tryBuild(regs[j]->a);
                        if (q) { assignRegion(*c.regions[j], *q); go(call, c); assignRegion(*c.regions[j], *own); }
                    }
                } else if (!sets.empty()) {
                    size_t j = r.below(sets.size());
                    Ctx d;
                    if (r.chance(0.5)) {
                        sut([&] { c.sets[j].reset(); });
                        loadContext(other(*sets[j]), d); std::swap(c.sets[j], d.sets[0]);
                        go(call, c);
                        sut([&] { c.sets[j].reset(); d.sets.clear(); });
                        loadContext(*sets[j], d); std::swap(c.sets[j], d.sets[0]);
                    } else {
                        loadContext(other(*sets[j]), d); loadContext(*sets[j], d);
                        sut([&] { *c.sets[j] = *d.sets[0]; });
                        go(call, c);
                        sut([&] { *c.sets[j] = *d.sets[1]; });
                    }
                }
                run.count("fault.object_replaced_in_place");
            };
            std::vector<size_t> order(cs.size());
            std::iota(order.begin(), order.end(), 0);
            for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
            size_t repeats = r.below(3);
            for (size_t k = 0; k < repeats * 3; ++k) order.push_back(r.below(cs.size()));
            for (size_t i : order) {
                while (!noise.empty() && r.chance(0.5)) {
                    Op const & n = *noise[r.below(noise.size())];
                    u64 fail = n.arg(9) % 64;
                    env::dirtyStack(r.next(), 30000);
                    if (fail) {
                        env::armFailure(fail, 0);
                        try { go(n, c); } catch (std::bad_alloc const &) { run.count("probe.failed_calls_between"); }
                        if (env::disarm()) run.count("fault.allocation_failed");
                    } else go(n, r.chance(0.5) ? c : old);
                    run.count("probe.calls_between");
                }
                if (r.chance(0.4)) impostor(*cs[r.chance(0.7) ? i : r.below(cs.size())]);
                env::setGarbage(mix(g + r.next()));
                env::dirtyStack(mix(st + r.next()), 60000);
                run.count("fault.dirty_stack_and_heap");
                ++run.simtime;
                u64 h = go(*cs[i], r.chance(0.3) ? old : c);
                if (h != sh->h[i]) run.fail("history-dependent", "%s (call %zu) gives %016llx here but %016llx with the same arguments in a process with another history", name(*cs[i]), i, (unsigned long long)h, (unsigned long long)sh->h[i]);
                run.event("%s again", name(*cs[i]));
                Hash s; s.u(cs[i]->arg(0)); s.u(h % 512); run.state(s.h);
            }
            if (fingerprint(c) != sh->ctx || fingerprint(old) != sh->ctx) run.fail("argument-changed", "a call changed an object it was only given to read");
            if (recycle) run.count("fault.address_reused", env::reused() - reused0);
            run.nontrivial = order.size() > 1 || !noise.empty();
        });
    }
};

WorldInfo info = {"C11", [] { return std::unique_ptr<World>(new Pure); },
    "a run makes 4-80 random calls from a catalogue of about 60 read-only operations in one process, then repeats them in another process in permuted order with other calls and failing calls in between, different fill patterns of new heap and unused stack memory, different object addresses, and other objects that lived (or for a while live) at the addresses of the arguments and were asked the same; non-trivial: at least two calls or a call in between",
    "all region, pixelization, chunker, range set, vector, interval, curve, orientation and printing code, with AddressSanitizer",
    "allocator (placement, contents of new memory, failures), stack contents", "distinct (call, result) pairs", 3000, 100000, nullptr};
RegisterWorld reg(&info);

} // namespace
