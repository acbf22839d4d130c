// C02: a reader of damaged records. Records written by the library pass through
// a simulated faulty medium and are handed to every decode entry point.
#include "lib.h"
#include "grammar.h"
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using namespace simlib;

namespace {

struct Corrupt : World {
    u64 stepBudget() override { return 300000000ull; }

    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        GenOptions o;
        // A depth every stack holds (500), or one no stack holds.
        if (r.chance(0.006)) { p.add("deep", {r.chance(0.5) ? u64(500) : u64(300000), r.next()}); return p; }
        if (r.chance(0.015)) {       // records of more than 64 KB
            static char const * const some[] = {"cut", "len", "field", "grow", "del", "byte"};
            p.add("rec", genBulk(r));
            for (int c = r.range(2, 5); c > 0; --c) { p.add("load", {0}); if (r.chance(0.8)) p.add(r.pick(some), {r.next(), r.next(), r.next()}); p.add("dec", {r.next()}); }
            return p;
        }
        o.maxDepth = r.range(0, 4); o.pCompound = r.real(0.2, 0.9); o.maxHull = r.chance(0.2) ? 40 : 8;
        genSizes(r, o, 300, 3000, r.chance(0.3) ? 300 : 40);
        int nrec = r.range(1, 4);
        for (int i = 0; i < nrec; ++i) p.add("rec", genRegion(r, o));
        if (r.chance(0.15)) { std::vector<u64> a{r.range(0, 160)}; for (u64 i = 0; i < 20; ++i) a.push_back(r.next()); if (r.chance(0.7)) a[1] = (a[1] & ~0xffull) | "bcepui"[r.below(6)]; p.add("raw", a); }
        // Swarm: a random subset of fault kinds per run.
        std::vector<char const *> all = {"flip", "cut", "grow", "byte", "zero", "field", "splice", "retag", "len", "dup", "del", "wrap", "nest", "swap"}, on;
        for (auto k : all) if (r.chance(0.5)) on.push_back(k);
        if (on.empty()) on.push_back("cut");
        int cases = r.range(4, thorough ? 60 : 24);
        for (int c = 0; c < cases; ++c) {
            p.add("load", {r.next()});
            for (int m = r.below(4) ? 1 : r.range(0, 4); m > 0; --m) p.add(r.pick(on), {r.next(), r.next(), r.next()});
            p.add(r.chance(0.12) ? "prefixes" : "dec", {r.next()});
        }
        return p;
    }

    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        if (op.name == "rec") { for (auto & s : simplerSpecs(op.a)) out.push_back({"rec", s}); return out; }
        if (op.name == "prefixes") out.push_back({"dec", op.a});
        if (op.name == "raw" || op.name == "deep") return out;
        for (size_t i = 0; i < op.a.size(); ++i)
            for (u64 v : {u64(0), u64(1), u64(8)}) if (op.a[i] > v && !(op.a[i] < 9)) { Op t = op; t.a[i] = v; out.push_back(t); }
        return out;
    }

    static u64 fieldOffset(Bytes const & b, u64 x) {   // start of an 8-byte field
        if (b.size() < 9) return 0;
        return 1 + (x % ((b.size() - 1) / 8)) * 8;
    }
    static void put64(Bytes & b, size_t at, u64 v) { for (int i = 0; i < 8 && at + i < b.size(); ++i) b[at + i] = v >> (8 * i); }

    // Offsets of all length prefixes (found by the reference grammar).
    static void prefixes(Bytes const & b, size_t at, size_t end, std::vector<size_t> & out) {
        if (at >= end || (b[at] != 'u' && b[at] != 'i')) return;
        ++at;
        for (int k = 0; k < 2; ++k) {
            if (end - at < 8) return;
            out.push_back(at);
            u64 len = 0;
            for (int i = 7; i >= 0; --i) len = len << 8 | b[at + i];
            at += 8;
            if (len > end - at) return;
            prefixes(b, at, at + len, out);
            at += len;
        }
    }

    void mutate(Run & run, Bytes & b, Op const & op, std::vector<Bytes> const & pool) {
        u64 x = op.arg(0), y = op.arg(1), z = op.arg(2);
        size_t n = b.size();
        std::string const & k = op.name;
        static u64 const special[] = {0, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull,
            1, 0x7fefffffffffffffull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x4010000000000000ull, 0x4010000000000001ull, 0x7ff8000000000123ull,
            0xc010000000000000ull, 0x3ff921fb54442d18ull, 0x401921fb54442d18ull, 0x4019000000000000ull, 0x0010000000000000ull};
        if (k == "flip") { if (n) b[x % n] ^= 1u << (y % 8); }
        else if (k == "cut") { b.resize(n ? x % n : 0); }
        else if (k == "grow") { size_t m = (x % 4) ? 1 + y % 9 : 1 + y % 130; for (size_t i = 0; i < m; ++i) b.push_back(z % 3 == 0 ? 0 : std::uint8_t(mix(z + i))); }
        else if (k == "byte") { if (n) b[x % n] = y; }
        else if (k == "zero") { size_t sec = (x & 1) ? 8 : 32; if (n) { size_t at = (y % (n / sec + 1)) * sec; for (size_t i = at; i < n && i < at + sec; ++i) b[i] = 0; } }
        else if (k == "field") { put64(b, fieldOffset(b, x), special[y % (sizeof special / 8)]); }
        else if (k == "splice") { if (!pool.empty()) { Bytes const & o = pool[x % pool.size()]; size_t a = n ? y % (n + 1) : 0, c = o.empty() ? 0 : ((z & 1) ? std::min(a, o.size()) : (z >> 1) % (o.size() + 1)); b.resize(a); b.insert(b.end(), o.begin() + c, o.end()); } }
        else if (k == "retag") { if (n) b[0] = (y & 7) ? "bcepui"[x % 6] : std::uint8_t(x); }
        else if (k == "len") {
            std::vector<size_t> at;
            prefixes(b, 0, n, at);
            if (!at.empty()) {
                size_t o = at[x % at.size()];
                u64 v = 0;
                for (int i = 7; i >= 0; --i) v = v << 8 | b[o + i];
                switch (y % 8) {
                    case 0: v += 1 + z % 200; break;
                    case 1: v -= 1 + z % 200; break;
                    case 2: v = ~0ull - z % 64; break;
                    case 3: v = 0; break;
                    case 4: v = n - o - 8; break;
                    case 5: v = (z % 3 == 0) ? 0x8000000000000000ull : (z % 3 == 1) ? 0x7fffffffffffffffull : 0x100000000ull + v; break;
                    case 6: v += (1 + z % 4) * 24; break;
                    default: v = z;
                }
                put64(b, o, v);
                run.count("fault.length_prefix_changed");
            }
        }
        else if (k == "dup") { if (n) { size_t a = x % n, m = 1 + y % std::min<size_t>(n - a, 40); Bytes t(b.begin() + a, b.begin() + a + m); b.insert(b.begin() + a, t.begin(), t.end()); } }
        else if (k == "del") { if (n) { size_t a = x % n, m = 1 + y % std::min<size_t>(n - a, 40); b.erase(b.begin() + a, b.begin() + a + m); } }
        else if (k == "swap") { if (n > 16) { size_t a = fieldOffset(b, x), c = fieldOffset(b, y); for (int i = 0; i < 8; ++i) std::swap(b[a + i], b[c + i]); } }
        else if (k == "wrap" || k == "nest") {
            int times = k == "wrap" ? 1 : 1 + x % 40;
            if (k == "nest" && x % 7 == 0) times = 300;
            for (int t = 0; t < times && b.size() < 40000; ++t) {
                Bytes const & o = pool.empty() ? b : pool[z % pool.size()];
                Bytes const & u = o.size() <= 200 ? o : b;
                Bytes const & first = (y >> (t % 16) & 1) ? b : u, second = (y >> (t % 16) & 1) ? u : b;
                if (times > 5 && &u == &b) break;
                Bytes w;
                w.push_back((y >> (t % 13) & 2) ? 'u' : 'i');
                for (auto const * q : {&first, &second}) { size_t s = w.size(); w.resize(s + 8); put64(w, s, q->size()); w.insert(w.end(), q->begin(), q->end()); }
                b = w;
            }
        }
    }

    // Everything an accepted region must still be able to do.
    static void use(Hash & h, sg::Region const & r, Run & run) {
        using namespace sg;
        u64 allow = 0;
        (void)allow;
        obs(h, [&](Hash & g) { auto c = r.clone(); g.b(c->encode()); });
        obs(h, [&](Hash & g) { auto v = Region::getRegions(r); g.u(v.size()); for (auto const & x : v) g.b(x->encode()); });
        static UnitVector3d const pts[] = {UnitVector3d(1, 0, 0), UnitVector3d(0, -1, 0), UnitVector3d(0, 0, 1), UnitVector3d(0, 0, -1), UnitVector3d(1, 2, 3), UnitVector3d(-3, 1, -1e-9)};
        for (auto const & p : pts) obs(h, [&](Hash & g) { g.u(r.contains(p)); });
        obs(h, [&](Hash & g) { put(g, r.getBoundingBox()); });
        obs(h, [&](Hash & g) { put(g, r.getBoundingBox3d()); });
        obs(h, [&](Hash & g) { put(g, r.getBoundingCircle()); });
        obs(h, [&](Hash & g) {
            std::ostringstream os;
            if (auto p = dynamic_cast<Box const *>(&r)) os << *p;
            else if (auto p = dynamic_cast<Circle const *>(&r)) os << *p;
            else if (auto p = dynamic_cast<Ellipse const *>(&r)) os << *p;
            else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) os << *p;
            g.s(os.str());
        });
        if (auto p = dynamic_cast<CompoundRegion const *>(&r)) obs(h, [&](Hash & g) { for (int i = 0; i < 2; ++i) g.u(typeOf(p->getOperand(i))); });
    }

    template <typename T> void entry(Run & run, char const * name, Bytes const & in, int must, char const * types, bool useIt) {
        Buf buf(in);
        // An empty vector has no storage at all: any byte read is a crash.
        bool const asVector = in.empty() || (in.size() + 3 * name[0] + in.back()) % 4 == 0;
        std::vector<std::uint8_t> held;
        if (asVector) held.assign(in.begin(), in.end());
        u64 live = env::liveBlocks(), liveB = env::liveBytes();
        env::resetAllocCount();
        std::string outcome;
        {
            std::unique_ptr<T> r;
            try {
                // Both forms of the entry point; the pointer form more often.
                if (asVector) { run.count("probe.vector_form"); r = sut([&] { return T::decode(held); }); }
                else r = sut([&] { return T::decode(buf.p, buf.n); });
                outcome = "ok";
            } catch (std::bad_alloc const &) {
                run.fail("out-of-proportion", "%s::decode of %zu bytes ran out of memory", name, in.size());
            } catch (std::length_error const & e) {
                run.fail("out-of-proportion", "%s::decode of %zu bytes threw std::length_error: %s", name, in.size(), e.what());
            } catch (std::exception const & e) {
                outcome = "error";
            } catch (...) {
                run.fail("undocumented-exception", "%s::decode of %zu bytes threw something that is not a std::exception", name, in.size());
            }
            if (env::allocBytes() > 64 * in.size() + 8192)
                run.fail("out-of-proportion", "%s::decode of %zu bytes allocated %llu bytes", name, in.size(), (unsigned long long)env::allocBytes());
            if (in.size() && (std::memcmp(buf.p, in.data(), in.size()) || (asVector && std::memcmp(held.data(), in.data(), in.size())))) run.fail("input-modified", "%s::decode changed its input", name);
            if (outcome == "ok") {
                if (!r) run.fail("null-result", "%s::decode returned a null pointer", name);
                int t = typeOf(*r);
                if (!must) run.fail("accepted-damaged", "%s::decode accepted %zu bytes whose lengths are inconsistent with the format (as '%c')", name, in.size(), t);
                if (t != must) run.fail("wrong-type", "%s::decode of a record tagged '%c' returned a '%c'", name, must, t);
                if (!std::strchr(types, t)) run.fail("wrong-type", "%s::decode returned a region of type '%c'", name, t);
                run.count("probe.accepted");
                run.event("%s accepted as '%c'", name, t);
                run.state(mix(t * 131 + in.size()));
                if (useIt) {
                    // The decoded region must not refer to the input any more.
                    if (buf.n) std::memset(buf.p, 0xEE, buf.n);
                    std::fill(held.begin(), held.end(), 0xEE);
                    Bytes e1 = sut([&] { return r->encode(); });
                    Hash h;
                    use(h, *r, run);
                    run.log.u(h.h);
                    Bytes e1b = sut([&] { return r->encode(); });
                    if (e1 != e1b) run.fail("unstable", "encoding changed after const queries");
                    std::unique_ptr<sg::Region> r2;
                    Bytes copy = e1;
                    try { r2 = sut([&] { return sg::Region::decode(copy.data(), copy.size()); }); }
                    catch (std::exception const & e) { run.fail("reencode-rejected", "%s accepted %zu bytes but rejects its own re-encoding (%zu bytes): %s", name, in.size(), e1.size(), e.what()); }
                    Bytes e2 = sut([&] { return r2->encode(); });
                    if (e1 != e2) run.fail("reencode-differs", "re-encoding and decoding again does not reproduce the same bytes (%zu and %zu bytes)", e1.size(), e2.size());
                    run.log.b(e1);
                }
            } else {
                run.event("%s rejected", name);
                run.count("probe.rejected");
            }
            if (buf.n) std::memcpy(buf.p, in.data(), in.size());
            sut([&] { r.reset(); });
        }
        if (env::liveBlocks() != live)
            run.fail("leak", "%s::decode of %zu bytes (%s) left %lld blocks (%lld bytes) allocated", name, in.size(), outcome.c_str(), (long long)(env::liveBlocks() - live), (long long)(env::liveBytes() - liveB));
    }

    // A record whose compounds are nested far deeper than any program stack:
    // decoded in a forked child, because running out of stack cannot be caught.
    static void deep(Run & run, u64 depth, u64 shape) {
        Bytes b;
        u64 const leaf = 41;
        for (u64 i = 0; i < depth; ++i) {
            b.push_back((shape >> (i % 60)) & 1 ? 'u' : 'i');
            size_t at = b.size();
            b.resize(at + 8);
            put64(b, at, (depth - i - 1) * 9 + leaf);   // everything that follows is the first operand
        }
        Bytes c = sut([] { return sg::Circle(sg::UnitVector3d(1, 2, 3), sg::Angle(0.1)).encode(); });
        b.insert(b.end(), c.begin(), c.end());
        ++run.simtime;
        run.nontrivial = true;
        run.count("fault.nested_without_end");
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            int null = open("/dev/null", O_WRONLY);
            dup2(null, 1); dup2(null, 2);
            signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
            try { auto r = sg::Region::decode(b.data(), b.size()); _exit(r ? 1 : 2); }
            catch (std::exception const &) { _exit(3); }
            catch (...) { _exit(4); }
        }
        int st = 0;
        if (pid < 0 || waitpid(pid, &st, 0) != pid) { run.event("deep record: no child"); return; }
        if (WIFSIGNALED(st)) run.fail("stack-exhausted", "Region::decode of a record of compounds nested %llu deep died of signal %d", (unsigned long long)depth, WTERMSIG(st));
        if (WEXITSTATUS(st) != 3) run.fail("accepted-damaged", "Region::decode of a truncated record of compounds nested %llu deep ended with outcome %d", (unsigned long long)depth, WEXITSTATUS(st));
        run.event("deep record rejected");
    }

    void decodeAll(Run & run, Bytes const & b, bool useIt) {
        ++run.simtime;
        int g = grammar(b.data(), b.size());
        run.count(g ? "cases.well_formed" : "cases.malformed");
        run.event("decode %zu bytes, grammar '%c'", b.size(), g ? g : '-');
        run.nontrivial = true;
        entry<sg::Region>(run, "Region", b, g, "bcepui", useIt);
        entry<sg::Box>(run, "Box", b, g, "b", useIt);
        entry<sg::Circle>(run, "Circle", b, g, "c", useIt);
        entry<sg::Ellipse>(run, "Ellipse", b, g, "e", useIt);
        entry<sg::ConvexPolygon>(run, "ConvexPolygon", b, g, "p", useIt);
        entry<sg::CompoundRegion>(run, "CompoundRegion", b, g, "ui", useIt);
        entry<sg::UnionRegion>(run, "UnionRegion", b, g, "u", useIt);
        entry<sg::IntersectionRegion>(run, "IntersectionRegion", b, g, "i", useIt);
    }

    void execute(Plan const & plan, Run & run) override {
        std::vector<Bytes> pool;
        Bytes cur;
        std::set<std::string> kinds = {"flip", "cut", "grow", "byte", "zero", "field", "splice", "retag", "len", "dup", "del", "wrap", "nest", "swap"};
        sut([] { std::ostringstream os; os << 1.5; });
        { Hash h; std::unique_ptr<sg::Region> w(new sg::Ellipse(sg::UnitVector3d(1, 2, 3), sg::Angle(0.2), sg::Angle(0.1), sg::Angle(0))); use(h, *w, run); }   // warm-up of static tables
        for (auto const & op : plan.ops) {
            if (op.name == "rec") {
                RegionPtr r = tryBuild(op.a);
                if (r) { Bytes e = sut([&] { return r->encode(); }); pool.push_back(Bytes(e.begin(), e.end())); run.event("record %zu bytes type %c", e.size(), typeOf(*r)); if (pool.size() == 1) cur = pool[0]; }
            } else if (op.name == "raw") {
                Bytes b;
                for (u64 i = 0; i < op.arg(0) && i / 8 + 1 < op.a.size(); ++i) b.push_back(op.a[1 + i / 8] >> (8 * (i % 8)));
                pool.push_back(b);
            } else if (op.name == "load") {
                if (!pool.empty()) cur = pool[op.arg(0) % pool.size()];
            } else if (op.name == "dec") {
                decodeAll(run, cur, true);
            } else if (op.name == "prefixes") {
                run.count("fault.all_prefixes");
                for (size_t n = cur.size() > 700 ? cur.size() - 700 : 0; n < cur.size(); ++n) decodeAll(run, Bytes(cur.begin(), cur.begin() + n), false);
            } else if (op.name == "deep") {
                deep(run, op.arg(0), op.arg(1));
            } else if (kinds.count(op.name)) {
                mutate(run, cur, op, pool);
                run.count(("fault." + op.name).c_str());
            }
        }
    }
};

WorldInfo info = {"C02", [] { return std::unique_ptr<World>(new Corrupt); },
    "a run builds up to 5 records with the library's constructors and encoders, damages copies of them with a random subset of 14 fault kinds and hands every damaged string, in an exactly sized heap block, to all 8 decode entry points; non-trivial: at least one string was decoded",
    "all region constructors, encode, all decode entry points, queries (compiled from /repo/src with AddressSanitizer)",
    "storage medium and its faults (simulated), allocator (wrapped to count and track blocks)",
    "distinct (accepted type, record length) pairs", 3000, 60000, nullptr};
RegisterWorld reg(&info);

} // namespace
