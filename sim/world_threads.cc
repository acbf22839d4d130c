// C08: several threads use the same objects at the same time. Compiled, like the
// library, with ThreadSanitizer instrumentation that calls threads_rt.cc.
#include "calls.h"
#include "threads_rt.h"
#include <algorithm>

using namespace sim;
using namespace simlib;

namespace {

constexpr int ALL = G_REGION | G_PIXEL | G_MISC | G_STREAM;
constexpr int MAXCALLS = 24;
constexpr u64 FAILED = 0xfa11ed;
// Results, written by the threads and read by the simulator.
struct Shared { u64 alone[thr::MAX_THREADS][MAXCALLS], got[thr::MAX_THREADS][MAXCALLS], aloneCtx[thr::MAX_THREADS], gotCtx[thr::MAX_THREADS]; };

struct Threads : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        genContext(r, p);
        int n = r.range(2, 5);
        p.add("mode", {u64(n), r.chance(0.4) ? u64(1) : u64(0), r.next()});
        std::vector<u64> few;
        for (int i = r.range(1, 5); i > 0; --i) few.push_back(r.below(calls().size()));
        bool swarm = r.chance(0.6), same = r.chance(0.4);
        int per = r.range(1, thorough ? 12 : 6);
        std::vector<std::vector<u64>> first;
        for (int t = 0; t < n; ++t)
            for (int i = 0; i < per; ++i) {
                std::vector<u64> a;
                if (same && t && r.chance(0.7)) a = first[i];       // the same call as another thread
                else { a = {swarm ? r.pick(few) : r.below(calls().size()), r.chance(0.1) ? 1 + r.below(8) : 0}; for (int j = 0; j < 8; ++j) a.push_back(r.chance(0.6) ? r.below(64) : r.next()); }
                if (!t) first.push_back(a);
                a.insert(a.begin(), t);
                p.add("tcall", a);
            }
        if (r.chance(0.6)) p.add("walk", {r.next(), u64(std::exp(r.real(0, 6)))});
        int d = r.below(6);
        for (int i = 0; i < d; ++i) { bool s = r.chance(0.5); p.add("preempt", {r.below(n), u64(s), s ? 1 + r.below(r.chance(0.5) ? 8 : 200) : u64(std::exp(r.real(0, 10)))}); }
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        if (op.name == "walk") { std::vector<Op> o; if (op.arg(1) < 100000) o.push_back({"walk", {op.arg(0), op.arg(1) * 4 + 4}}); return o; }
        if (op.name == "tcall" || op.name == "preempt") return {};
        if (op.name == "mode") { std::vector<Op> o; if (op.arg(0) > 2) o.push_back({"mode", {op.arg(0) - 1, op.arg(1), op.arg(2)}}); if (op.arg(1)) o.push_back({"mode", {op.arg(0), 0, op.arg(2)}}); return o; }
        return simplerCallOp(op);
    }

    void execute(Plan const & plan, Run & run) override {
        int n = 2; bool own = false; u64 order = 0;
        thr::Config cfg;
        std::vector<Op const *> prog[thr::MAX_THREADS];
        for (auto const & op : plan.ops) if (op.name == "mode") { n = std::min<int>(thr::MAX_THREADS, 1 + (op.arg(0) - 1) % thr::MAX_THREADS); own = op.arg(1); order = op.arg(2); }
        for (auto const & op : plan.ops) {
            if (op.name == "tcall") { auto & v = prog[op.arg(0) % n]; if (v.size() < MAXCALLS) v.push_back(&op); }
            else if (op.name == "walk") { cfg.walkSeed = op.arg(0); cfg.walkMean = op.arg(1) ? op.arg(1) : 1; }
            else if (op.name == "preempt") cfg.preempts.push_back({int(op.arg(0) % n), int(op.arg(1) & 1), op.arg(2)});
        }
        cfg.threads = n;
        for (int i = 0; i < n; ++i) { cfg.priority.push_back(int(order % 7)); order /= 7; }
        Shared * sh = static_cast<Shared *>(sharedBytes(sizeof(Shared)));
        auto load = [&](Ctx & c) { for (auto const & op : plan.ops) if (isContextOp(op)) loadContext(op, c); completeContext(c); };
        auto name = [&](Op const & op) { return calls()[op.arg(1) % calls().size()].name; };
        auto work = [&](int t, Ctx const * common, u64 (*out)[MAXCALLS], u64 * ctx, bool faults) {
            Ctx mine;
            Ctx const * c = common;
            if (!c) { thr::mark("constructing objects"); load(mine); c = &mine; ctx[t] = fingerprint(mine); }
            for (size_t i = 0; i < prog[t].size(); ++i) {
                Op const & op = *prog[t][i];
                std::vector<u64> args(op.a.begin() + std::min<size_t>(3, op.a.size()), op.a.end());
                thr::mark(name(op));
                u64 fail = faults ? op.arg(2) % 64 : 0;
                if (fail) {
                    env::armFailure(fail, 0);
                    try { out[t][i] = invoke(calls()[op.arg(1) % calls().size()], *c, args); } catch (std::bad_alloc const &) { out[t][i] = FAILED; }
                    if (env::disarm()) out[t][i] = FAILED;      // streams absorb failures
                } else out[t][i] = invoke(calls()[op.arg(1) % calls().size()], *c, args);
            }
        };
        calls();
        isolated(run, [&] {       // every program with no other thread running
            std::unique_ptr<Ctx> common;
            if (!own) { common.reset(new Ctx); load(*common); }
            for (int t = 0; t < n; ++t) { work(t, common.get(), sh->alone, sh->aloneCtx, false); for (size_t i = 0; i < prog[t].size(); ++i) run.event("thread %d: %s = %016llx", t, name(*prog[t][i]), (unsigned long long)sh->alone[t][i]); }
        });
        isolated(run, [&] {
            thr::ownMemory();
            { std::ostringstream os; os << 1.5 << 1u << -3 << true << 'x' << "y" << std::hex << 255l; text(os.str()); }
            std::unique_ptr<Ctx> common;
            if (!own) { common.reset(new Ctx); load(*common); }
            u64 before = common ? fingerprint(*common) : 0;
            thr::Stats st = thr::run(cfg, [&](int t) { work(t, common.get(), sh->got, sh->gotCtx, true); });
            for (int t = 0; t < n; ++t) {
                if (own && sh->gotCtx[t] != sh->aloneCtx[t]) run.fail("different-objects", "thread %d constructs other objects than it would alone", t);
                for (size_t i = 0; i < prog[t].size(); ++i) {
                    Op const & op = *prog[t][i];
                    if (sh->got[t][i] == FAILED && op.arg(2) % 64) { run.count("fault.allocation_failed_in_one_thread"); continue; }
                    if (sh->got[t][i] != sh->alone[t][i]) run.fail("different-answer", "thread %d: %s (call %zu) gives %016llx but %016llx with no other thread running", t, name(op), i, (unsigned long long)sh->got[t][i], (unsigned long long)sh->alone[t][i]);
                    Hash s; s.u(op.arg(1)); s.u(t); s.u(st.schedule % 64); run.state(s.h);
                    ++run.simtime;
                }
            }
            if (common && fingerprint(*common) != before) run.fail("argument-changed", "an object that was only read by all threads changed");
            run.event("schedule %016llx: %llu accesses, %llu shared, %llu synchronisation, %llu switches", (unsigned long long)st.schedule, (unsigned long long)st.accesses, (unsigned long long)st.shared, (unsigned long long)st.syncs, (unsigned long long)st.switches);
            run.count("fault.thread_preempted_or_stalled", st.preempts + st.walks);
            run.count("probe.context_switches", st.switches);
            run.count("probe.memory_accesses_checked", st.accesses);
            run.count("probe.accesses_to_memory_used_by_several_threads", st.shared);
            run.count("probe.synchronisation_operations", st.syncs);
            run.count("probe.waits_for_another_thread", st.blocked);
            run.count("probe.shadow_evictions", st.full);
            run.state(st.schedule);
            run.nontrivial = st.switches > u64(n);
        });
    }
};

WorldInfo info = {"C08", [] { return std::unique_ptr<World>(new Threads); },
    "a run lets 2-5 threads make 1-12 read-only calls each on shared objects (or on objects each builds itself, from a freshly started process), switching threads at instrumented memory accesses and synchronisation operations as a seeded scheduler decides; every result is compared with the same program alone and all accesses are checked for data races with vector clocks; non-trivial: threads really interleaved",
    "the whole library and the standard library templates it instantiates, in real threads",
    "thread scheduler, mutexes, condition variables, one-time initialisation, static guards, sleeping; allocator failures", "distinct schedules (hash of all switch points) and (call, thread, schedule) triples", 1500, 60000, nullptr};
RegisterWorld reg(&info);

} // namespace
