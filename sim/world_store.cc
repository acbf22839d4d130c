// C01: a region store on a simulated disk, with crashes, torn writes and restarts.
// Every epoch between two crashes runs in its own process; only the simulated
// disk and the reference model (both in shared memory) survive.
#include "lib.h"
#include "grammar.h"

using namespace sim;
using namespace simlib;

namespace {

constexpr u64 KEYS = 12, CAP = 150000, SPECCAP = 4000;

struct Entry {                 // model: what a client stored
    bool used;
    u64 nspec, spec[SPECCAP];
    u64 type, hash, nbytes;
    std::uint8_t bytes[CAP];
};
struct File {
    Entry durable;             // what survives a crash for certain
    u64 ndur;                  // bytes on the platter (may be a prefix of durable.bytes: torn)
    Entry pending;             // last write not yet synced
    u64 npend;
    bool dirty;
};
struct Disk { File f[KEYS]; u64 epoch; };

struct Store : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        if (r.chance(0.02)) {        // records of more than 64 KB
            u64 k = r.below(KEYS);
            Spec s = genBulk(r); s.insert(s.begin(), k); p.add("put", s);
            if (r.chance(0.5)) p.add("derive", {r.below(KEYS), k, k, r.below(2)});
            if (r.chance(0.7)) p.add("sync", {KEYS});
            p.add("crash", {r.next(), r.below(3)});
            p.add("get", {k, r.next()});
            p.add("recover", {r.next()});
            return p;
        }
        GenOptions o;
        o.maxDepth = r.range(0, 4); o.pCompound = r.real(0, 0.7); o.maxHull = r.chance(0.2) ? 60 : 12;
        genSizes(r, o, 300, 3000, r.chance(0.4) ? 300 : 60);
        int epochs = r.range(1, thorough ? 6 : 4);
        for (int e = 0; e < epochs; ++e) {
            int n = r.range(1, thorough ? 14 : 8);
            for (int i = 0; i < n; ++i) {
                switch (r.below(10)) {
                    case 0: case 1: case 2: case 3: { Spec s = genRegion(r, o); s.insert(s.begin(), r.below(KEYS)); p.add("put", s); break; }
                    case 4: p.add("derive", {r.below(KEYS), r.below(KEYS), r.below(KEYS), r.below(2)}); break;
                    case 5: p.add("sync", {r.below(KEYS + 6)}); break;
                    case 6: p.add("full", {r.below(KEYS), r.next()}); break;       // disk full inside the write
                    case 7: p.add("replace", {r.below(KEYS), r.below(KEYS)}); break; // atomic copy of a stored record
                    case 8: p.add("oom", {r.below(KEYS), 1 + r.below(12)}); break;
                    default: p.add("get", {r.below(KEYS), r.next()});
                }
            }
            if (r.chance(0.5)) p.add("sync", {KEYS});
            p.add("crash", {r.next(), r.below(3)});
        }
        for (u64 k = 0; k < KEYS; ++k) if (r.chance(0.4)) p.add("get", {k, r.next()});
        p.add("recover", {r.next()});
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        if (op.name == "put") { for (auto & s : simplerSpecs(Spec(op.a.begin() + 1, op.a.end()))) { s.insert(s.begin(), op.a[0]); out.push_back({"put", s}); } return out; }
        for (size_t i = 0; i < op.a.size(); ++i) for (u64 v : {u64(0), u64(1)}) if (op.a[i] > v && op.a[i] > 1) { Op t = op; t.a[i] = v; out.push_back(t); }
        return out;
    }

    Disk * d = nullptr;
    std::unique_ptr<Panel> panel;
    Run * run = nullptr;

    u64 look(sg::Region const & r) { Hash h; observe(h, r, *panel, O_ALL); return h.h; }

    void write(u64 key, Spec const & spec) {
        if (spec.size() > SPECCAP || !specEnd(spec, 0)) return;
        RegionPtr r = tryBuild(spec);
        if (!r) { run->event("put %llu: arguments rejected", (unsigned long long)key); return; }
        Bytes b = sut([&] { return r->encode(); });
        if (b.size() > CAP) return;
        File & f = d->f[key];
        Entry & e = f.pending;
        e.used = true; e.nspec = spec.size(); std::copy(spec.begin(), spec.end(), e.spec);
        e.type = typeOf(*r); e.nbytes = b.size(); std::copy(b.begin(), b.end(), e.bytes);
        e.hash = look(*r);
        Bytes again = sut([&] { return r->encode(); });
        if (again != b) run->fail("unstable-encoding", "encoding a '%c' region twice gives different bytes", int(e.type));
        f.npend = b.size(); f.dirty = true;
        run->event("put %llu: '%c' %zu bytes, answers %016llx", (unsigned long long)key, int(e.type), b.size(), (unsigned long long)e.hash);
        run->log.b(b);
        run->count("probe.puts");
    }
    void syncFile(u64 k) {
        File & f = d->f[k];
        if (!f.dirty) return;
        f.durable = f.pending; f.ndur = f.npend; f.dirty = false;
    }
    // What the system sees now (page cache first).
    bool current(u64 k, Entry const *& e, u64 & n) {
        File & f = d->f[k];
        e = f.dirty ? &f.pending : &f.durable;
        n = f.dirty ? f.npend : f.ndur;
        return e->used;
    }

    template <typename T> static RegionPtr via(std::uint8_t const * p, size_t n) { return RegionPtr(T::decode(p, n).release()); }
    static RegionPtr decodeAs(u64 how, u64 type, std::uint8_t const * p, size_t n) {
        using namespace sg;
        return sut([&]() -> RegionPtr {
            if (how == 0) return Region::decode(p, n);
            if (how == 1) return Region::decode(std::vector<std::uint8_t>(p, p + n));
            if (how == 2) switch (type) {
                case 'b': return via<Box>(p, n);
                case 'c': return via<Circle>(p, n);
                case 'e': return via<Ellipse>(p, n);
                case 'p': return via<ConvexPolygon>(p, n);
                case 'u': return via<UnionRegion>(p, n);
                case 'i': return via<IntersectionRegion>(p, n);
            }
            if (type == 'u' || type == 'i') return via<CompoundRegion>(p, n);
            return Region::decode(p, n);
        });
    }

    void get(u64 k, u64 seed, bool full) {
        Entry const * e; u64 n;
        if (!current(k, e, n)) return;
        // The record arrives at an arbitrary alignment, in a block of exactly its size.
        u64 off = seed % 8;
        std::unique_ptr<std::uint8_t[]> block(new std::uint8_t[off + n]);
        std::uint8_t * p = block.get() + off;
        std::copy(e->bytes, e->bytes + n, p);
        if (n != e->nbytes) {
            int g = grammar(p, n);
            for (u64 how = 0; how < 4; ++how) {
                try {
                    RegionPtr r = decodeAs(how, e->type, p, n);
                    if (!g) run->fail("torn-accepted", "a '%c' record of %llu bytes cut to %llu bytes was accepted", int(e->type), (unsigned long long)e->nbytes, (unsigned long long)n);
                    Bytes b = sut([&] { return r->encode(); });
                    if (Bytes(p, p + n) != b) run->fail("torn-differs", "a shortened but complete record does not re-encode to the same bytes");
                } catch (std::bad_alloc const &) { run->fail("torn-oom", "decoding a record cut to %llu bytes ran out of memory", (unsigned long long)n); }
                catch (std::exception const &) {}
            }
            run->event("get %llu: torn record of %llu bytes", (unsigned long long)k, (unsigned long long)n);
            run->count("probe.torn_records_read");
            return;
        }
        Spec spec(e->spec, e->spec + e->nspec);
        RegionPtr want = tryBuild(spec);
        if (!want) run->fail("not-repeatable", "the constructor that made a stored region now rejects the same arguments");
        for (u64 how = 0; how < 4; ++how) {
            RegionPtr r;
            try { r = decodeAs(how, e->type, p, n); }
            catch (std::exception const & x) { run->fail("rejected", "a durably stored '%c' record of %llu bytes was rejected on read back: %s", int(e->type), (unsigned long long)n, x.what()); }
            if (!r || u64(typeOf(*r)) != e->type) run->fail("wrong-type", "a stored '%c' was read back as '%c'", int(e->type), r ? typeOf(*r) : '0');
            Bytes b = sut([&] { return r->encode(); });
            if (Bytes(p, p + n) != b) run->fail("re-encode", "a '%c' read back re-encodes to different bytes", int(e->type));
            bool eq, eq2;
            sut([&] { eq = equalRegions(*r, *want); eq2 = equalRegions(*want, *r); });
            if (!eq || !eq2) run->fail("not-equal", "a '%c' read back does not compare equal to the stored region", int(e->type));
            if (value(*r) != value(*want)) run->fail("value", "a '%c' read back has different fields than the stored region", int(e->type));
            if (how == (seed >> 8) % 4 || full) {
                u64 h = look(*r);
                if (h != e->hash) {
                    u64 h2 = look(*want);
                    run->fail("answers", "a '%c' read back answers queries differently (%016llx) than the region that was stored (%016llx; rebuilt now %016llx)", int(e->type), (unsigned long long)h, (unsigned long long)e->hash, (unsigned long long)h2);
                }
                run->log.u(h);
            }
        }
        run->event("get %llu: '%c' %llu bytes intact", (unsigned long long)k, int(e->type), (unsigned long long)n);
        run->count("probe.intact_reads");
        if (d->epoch) { run->count("probe.reads_after_restart"); run->nontrivial = true; }
        Hash st; st.u(e->type); st.u(n); st.u(e->nspec ? e->spec[0] : 0); st.u(d->epoch); run->state(st.h);
    }

    void crash(u64 seed, u64 mode) {
        run->count("fault.crash_and_restart");
        for (u64 k = 0; k < KEYS; ++k) {
            File & f = d->f[k];
            if (!f.dirty) continue;
            u64 x = mix(seed + k);
            f.dirty = false;
            switch (mode == 0 ? 0 : x % 3) {
                case 0: run->count("fault.unsynced_write_lost"); break;                     // old contents stay
                case 1: f.durable = f.pending; f.ndur = (x >> 8) % (f.npend + 1); run->count("fault.torn_write"); break;
                default: f.durable = f.pending; f.ndur = f.npend; run->count("fault.unsynced_write_survived");
            }
            run->event("crash: file %llu has %llu bytes", (unsigned long long)k, (unsigned long long)(f.durable.used ? f.ndur : 0));
        }
        ++d->epoch;
    }

    void step(Op const & op) {
        ++run->simtime;
        u64 k = op.arg(0) % KEYS;
        if (op.name == "put" && op.a.size() > 1) write(k, Spec(op.a.begin() + 1, op.a.end()));
        else if (op.name == "derive") {
            // Combine two stored regions (as read back) and store the result.
            Entry const *x, *y; u64 n, m;
            if (!current(op.arg(1) % KEYS, x, n) || !current(op.arg(2) % KEYS, y, m) || n != x->nbytes || m != y->nbytes) return;
            Spec s{op.arg(3) & 1 ? K_UNION : K_INTERSECTION};
            s.insert(s.end(), x->spec, x->spec + x->nspec);
            s.insert(s.end(), y->spec, y->spec + y->nspec);
            if (s.size() > SPECCAP / 2) return;
            RegionPtr a = decodeAs(0, x->type, x->bytes, n), b = decodeAs(0, y->type, y->bytes, m), r;
            sut([&] { if (op.arg(3) & 1) r.reset(new sg::UnionRegion(*a, *b)); else r.reset(new sg::IntersectionRegion(*a, *b)); });
            Bytes e = sut([&] { return r->encode(); });
            RegionPtr w = tryBuild(s);
            if (!w) run->fail("not-repeatable", "the constructor that made a stored region now rejects the same arguments");
            if (e != sut([&] { return w->encode(); })) run->fail("compose", "a compound of two regions read back encodes differently from the compound of the originals");
            write(k, s);
        }
        else if (op.name == "sync") { if (op.arg(0) < KEYS) syncFile(op.arg(0)); else for (u64 i = 0; i < KEYS; ++i) syncFile(i); }
        else if (op.name == "full") { File & f = d->f[k]; if (f.dirty) { f.npend = op.arg(1) % (f.npend + 1); run->count("fault.disk_full"); } }
        else if (op.name == "replace") {
            u64 t = op.arg(1) % KEYS;
            Entry const * e; u64 n;
            if (t == k || !current(k, e, n)) return;
            d->f[t].durable = *e; d->f[t].ndur = n; d->f[t].dirty = false;
        }
        else if (op.name == "oom") {
            Entry const * e; u64 n;
            if (!current(k, e, n) || n != e->nbytes) return;
            env::armFailure(op.arg(1) ? op.arg(1) : 1, 0);
            try { RegionPtr r = decodeAs(0, e->type, e->bytes, n); u64 fired = env::disarm(); if (fired) run->count("fault.allocation_failed"); if (value(*r) != value(*tryBuild(Spec(e->spec, e->spec + e->nspec)))) run->fail("value", "a region read back while memory was short differs from the stored one"); }
            catch (std::bad_alloc const &) { env::disarm(); run->count("fault.allocation_failed"); }
            get(k, op.arg(1), false);
        }
        else if (op.name == "get") get(k, op.arg(1), op.arg(1) % 4 == 0);
        else if (op.name == "recover") for (u64 i = 0; i < KEYS; ++i) get(i, mix(op.arg(0) + i), true);
    }

    void execute(Plan const & plan, Run & r) override {
        run = &r;
        d = static_cast<Disk *>(sharedBytes(sizeof(Disk)));
        size_t i = 0;
        while (i < plan.ops.size()) {
            size_t e = i;
            while (e < plan.ops.size() && plan.ops[e].name != "crash") ++e;
            isolated(r, [&] {
                // A restarted process: nothing but the disk is the same.
                env::setGarbage(mix(i + 17)); env::setPadding(i + 1); env::dirtyStack(i, 60000);
                sut([&] { panel.reset(new Panel); });
                for (size_t k = i; k < e; ++k) step(plan.ops[k]);
            });
            if (e < plan.ops.size()) crash(plan.ops[e].arg(0), plan.ops[e].arg(1) % 3);
            i = e + 1;
        }
    }
};

WorldInfo info = {"C01", [] { return std::unique_ptr<World>(new Store); },
    "a run is a history of puts, compositions, syncs, disk-full writes, failing reads, crashes and restarts on a store of up to 12 records; records are read back through 4 decode routes and compared in type, bytes, equality, fields and the answers to about 150 queries recorded before the crash; non-trivial: at least one intact record was read after a restart",
    "all region constructors, encode, decode, equality and queries, with AddressSanitizer, in a fresh process per epoch",
    "disk (page cache, sync, torn writes, disk full), crash and restart (process per epoch), allocator",
    "distinct (region type, record size, constructor, epoch)", 2000, 60000, nullptr};
RegisterWorld reg(&info);

} // namespace
