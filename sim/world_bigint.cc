// C15: histories of big-integer arithmetic in digit arrays of limited capacity,
// against schoolbook integers, with digit storage and memory running out.
#include "core.h"
#include <algorithm>
#include <cstdlib>
#include <stdexcept>
#include "lsst/sphgeom/BigInteger.h"

using namespace sim;

namespace {

using BI = lsst::sphgeom::BigInteger;
using u32 = std::uint32_t;
constexpr int NS = 4;

// ---- reference integers: a sign and decimal-style digits in base 2^16 -------------

struct Z {
    int sign = 0;
    std::vector<std::uint16_t> m;      // least significant first, no leading zeroes
    bool operator==(Z const & o) const { return sign == o.sign && m == o.m; }
};
using Mag = std::vector<std::uint16_t>;
void strip(Mag & m) { while (!m.empty() && m.back() == 0) m.pop_back(); }
int cmp(Mag const & a, Mag const & b) {
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
Mag madd(Mag const & a, Mag const & b) {
    Mag r; unsigned c = 0;
    for (size_t i = 0; i < std::max(a.size(), b.size()) || c; ++i) { c += (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0); r.push_back(c & 0xffff); c >>= 16; }
    strip(r); return r;
}
Mag msub(Mag const & a, Mag const & b) {   // a >= b
    Mag r; int c = 0;
    for (size_t i = 0; i < a.size(); ++i) { c += int(a[i]) - (i < b.size() ? int(b[i]) : 0); r.push_back(c & 0xffff); c = c < 0 ? -1 : 0; }
    strip(r); return r;
}
Mag mmul(Mag const & a, Mag const & b) {
    Mag r(a.size() + b.size() + 1, 0);
    for (size_t i = 0; i < a.size(); ++i) {
        u64 c = 0;
        for (size_t j = 0; j < b.size() || c; ++j) { c += r[i + j] + u64(a[i]) * (j < b.size() ? b[j] : 0); r[i + j] = c & 0xffff; c >>= 16; }
    }
    strip(r); return r;
}
Z mk(int s, Mag m) { strip(m); Z z; z.sign = m.empty() ? 0 : s; z.m = m; return z; }
Z fromU(u64 x, int s = 1) { Mag m; for (; x; x >>= 16) m.push_back(x & 0xffff); return mk(s, m); }
Z neg(Z a) { a.sign = -a.sign; return a; }
Z add(Z const & a, Z const & b) {
    if (!a.sign) return b;
    if (!b.sign) return a;
    if (a.sign == b.sign) return mk(a.sign, madd(a.m, b.m));
    return cmp(a.m, b.m) >= 0 ? mk(a.sign, msub(a.m, b.m)) : mk(b.sign, msub(b.m, a.m));
}
Z mul(Z const & a, Z const & b) { return mk(a.sign * b.sign, mmul(a.m, b.m)); }
Z shl(Z const & a, unsigned n) {
    Mag p(n / 16 + 1, 0);
    p[n / 16] = 1u << (n % 16);
    return mk(a.sign, mmul(a.m, p));
}
std::vector<u32> digits(Z const & z) {
    std::vector<u32> d;
    for (size_t i = 0; i < z.m.size(); i += 2) d.push_back(z.m[i] | (i + 1 < z.m.size() ? u32(z.m[i + 1]) << 16 : 0));
    return d;
}

// ---- the world ------------------------------------------------------------------

struct Slot {
    u32 * mem = nullptr;
    unsigned cap = 0;
    std::unique_ptr<BI> b;
    Z v;
    void open(unsigned c, u64 garbage) {
        std::free(mem);
        cap = c;
        mem = static_cast<u32 *>(std::malloc(c ? c * sizeof(u32) : 1));
        for (unsigned i = 0; i < c; ++i) mem[i] = u32(garbage = mix(garbage));
        if (c == 0) { std::free(mem); mem = nullptr; }
        b.reset(new BI(mem, cap));
        v = Z();
    }
    Slot() {}
    Slot(Slot const &) = delete;
    ~Slot() { std::free(mem); }
};

struct BigWorld : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        bool tight = r.chance(0.4);
        unsigned top = r.chance(0.1) ? 200 : r.chance(0.3) ? 40 : 12;
        for (u64 i = 0; i < NS; ++i) p.add("open", {i, tight ? r.below(7) : r.range(2, top), r.next()});
        auto slot = [&] { return r.below(NS); };
        auto num = [&]() -> u64 {
            switch (r.below(8)) {
                case 0: return r.below(4);
                case 1: return 0 - r.below(4);
                case 2: return (u64(1) << r.below(64)) - r.below(2);
                case 3: return u64(1) << 63;
                case 4: return 0xffffffffull << r.below(33);
                case 5: return u64(r.chance(0.5) ? 0xffffffffu : 0x80000000u) << 32 | (r.chance(0.5) ? 0 : 0xffffffffu);
                default: return r.next() >> r.below(64);
            }
        };
        std::vector<std::string> kinds = {"set", "sets", "load", "zero", "neg", "add", "sub", "mul", "shl", "copy", "near", "open", "scribble", "addm", "submul"}, on;
        for (auto & k : kinds) if (r.chance(0.65)) on.push_back(k);
        for (auto k : {"load", "add", "sub", "mul"}) if (r.chance(0.7)) on.push_back(k);
        double pFail = r.chance(0.5) ? r.real(0, 0.5) : 0;
        int n = r.range(8, thorough ? 200 : 90);
        for (int i = 0; i < n; ++i) {
            std::string k = r.pick(on);
            if (k == "open" && !r.chance(0.3)) k = "load";
            if (r.chance(pFail)) p.add("exhaust", {r.range(1, 3), r.below(3)});
            std::vector<u64> a = {slot(), slot()};
            if (r.chance(0.15)) a[1] = a[0];
            if (k == "set" || k == "sets") a.push_back(num());
            else if (k == "shl") a.push_back(r.chance(0.3) ? 32 * r.below(5) : r.chance(0.9) ? r.below(140) : r.below(3000));
            else if (k == "open") { a.push_back(tight ? r.below(7) : r.range(2, top)); a.push_back(r.next()); }
            else if (k == "scribble") a.push_back(r.next());
            else if (k == "load") { for (int j = r.range(1, r.chance(0.2) ? top : 5); j > 0; --j) a.push_back(r.chance(0.3) ? 0 : r.chance(0.3) ? 0xffffffffu : r.chance(0.2) ? 0x80000000u : r.chance(0.2) ? r.below(3) : r.next() & 0xffffffffu); a[1] = r.below(2); }
            else if (k == "near") a.push_back(r.next());
            p.add(k, a);
        }
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        for (size_t i = op.name == "load" ? 2 : 0; i < op.a.size(); ++i) {
            if (op.a[i] == 0) continue;
            for (u64 v : {u64(0), u64(1), op.a[i] / 2, op.a[i] - 1}) if (v < op.a[i]) { Op t = op; t.a[i] = v; out.push_back(t); if (i < 2) break; }
        }
        if (op.name == "load" && op.a.size() > 3) { Op t = op; t.a.pop_back(); out.push_back(t); t = op; t.a.erase(t.a.begin() + 2); out.push_back(t); }
        return out;
    }

    Slot S[NS];

    static std::string show(int sign, u32 const * d, size_t n) {
        std::string s = sign < 0 ? "-" : sign > 0 ? "+" : "0";
        char b[16];
        for (size_t i = n; i-- > 0;) { if (n - i > 8) { s += "..."; break; } std::snprintf(b, sizeof b, " %08x", d[i]); s += b; }
        return s;
    }
    void check(Run & run, char const * where) {
        for (int i = 0; i < NS; ++i) {
            Slot & s = S[i];
            std::vector<u32> want = digits(s.v);
            unsigned size = s.b->getSize();
            if (s.b->getCapacity() != s.cap || s.b->getDigits() != s.mem) run.fail("storage-changed", "%s, integer %d: capacity %u (given %u)%s", where, i, s.b->getCapacity(), s.cap, s.b->getDigits() != s.mem ? ", other digit array" : "");
            if (size > s.cap) run.fail("beyond-capacity", "%s, integer %d: %u digits in an array of %u", where, i, size, s.cap);
            if (s.b->getSign() != s.v.sign || size != want.size() || (size && std::memcmp(s.mem, want.data(), size * sizeof(u32))))
                run.fail("wrong-value", "%s, integer %d: %u digits %s, expected %zu digits %s", where, i, size, show(s.b->getSign(), s.mem, size).c_str(), want.size(), show(s.v.sign, want.data(), want.size()).c_str());
        }
    }

    void execute(Plan const & plan, Run & run) override {
        for (int i = 0; i < NS; ++i) S[i].open(4, i);
        u64 fail = 0, mode = 0;
        for (auto const & op : plan.ops) {
            ++run.simtime;
            std::string const & k = op.name;
            if (k == "exhaust") { fail = op.arg(0); mode = op.arg(1); continue; }
            if (op.a.empty()) continue;
            int i = op.arg(0) % NS, j = op.arg(1) % NS;
            if (k == "open") { S[i].open(op.arg(op.a.size() > 3 ? 2 : 1) % 4096, op.a.back()); check(run, "after construction"); continue; }
            Slot & a = S[i]; Slot & b = S[j];
            if (k == "scribble") {      // digits above the most significant one mean nothing
                u64 g = op.arg(2);
                for (unsigned d = a.b->getSize(); d < a.cap; ++d) a.mem[d] = u32(g = mix(g));
                continue;
            }
            // One primitive at a time: call, compare.
            auto step = [&](char const * name, Slot & t, size_t need, Z const & expect, std::function<void()> const & f) -> bool {
                char where[96];
                bool full = false, nomem = false;
                u64 fired = 0;
                if (fail) env::armFailure(fail, mode == 2 ? 1 : 0);
                try { sut([&] { f(); }); }
                catch (std::bad_alloc const &) { nomem = true; }
                catch (std::runtime_error const &) { full = true; }
                catch (std::exception const & e) { env::disarm(); run.fail("wrong-exception", "%s threw %s", name, e.what()); }
                if (fail) { fired = env::disarm(); fail = 0; }
                if (nomem) {
                    if (!fired) run.fail("spurious-bad-alloc", "%s threw std::bad_alloc although memory was available", name);
                    run.count("fault.allocation_failed");
                } else if (full) {
                    if (need <= t.cap) run.fail("spurious-failure", "%s of integers of %zu and %zu digits into an array of %u threw although %zu digits suffice", name, digits(a.v).size(), digits(b.v).size(), t.cap, need);
                    run.count("fault.digit_storage_exhausted");
                    run.nontrivial = true;
                } else {
                    if (fired) run.count("probe.failure_absorbed");
                    if (digits(expect).size() > t.cap) run.fail("beyond-capacity", "%s returned although its result has %zu digits and the array %u", name, digits(expect).size(), t.cap);
                    t.v = expect;
                    run.nontrivial = true;
                }
                std::snprintf(where, sizeof where, "after %s(%d, %d)%s", name, i, j, full ? " without room" : nomem ? " without memory" : "");
                run.event("%s: %zu digits", where, t.v.m.size() / 2);
                check(run, where);
                return !full && !nomem;
            };
            size_t na = digits(a.v).size(), nb = digits(b.v).size();
            auto doAdd = [&](Slot & x, Slot & y) { return step("add", x, std::max(digits(x.v).size(), digits(y.v).size()) + 1, add(x.v, y.v), [&] { if (&x.b->add(*y.b) != x.b.get()) die("identity", "add() does not return its target"); }); };
            auto doSub = [&](Slot & x, Slot & y) { return step("subtract", x, &x == &y ? 0 : std::max(digits(x.v).size(), digits(y.v).size()) + 1, add(x.v, neg(y.v)), [&] { if (&x.b->subtract(*y.b) != x.b.get()) die("identity", "subtract() does not return its target"); }); };
            auto doMul = [&](Slot & x, Slot & y) { bool zero = !x.v.sign || !y.v.sign; return step("multiply", x, zero ? 0 : digits(x.v).size() + digits(y.v).size(), mul(x.v, y.v), [&] { if (&x.b->multiply(*y.b) != x.b.get()) die("identity", "multiply() does not return its target"); }); };
            auto doShl = [&](Slot & x, unsigned n) { bool none = !x.v.sign || !n; return step("multiplyPow2", x, none ? 0 : digits(x.v).size() + n / 32 + 1, shl(x.v, none ? 0 : n), [&] { if (&x.b->multiplyPow2(n) != x.b.get()) die("identity", "multiplyPow2() does not return its target"); }); };
            auto doSet = [&](Slot & x, u64 v) { return step("setTo", x, 2, fromU(v), [&] { x.b->setTo(v); }); };
            auto doCopy = [&](Slot & x, Slot & y) { return step("operator=", x, &x == &y ? 0 : digits(y.v).size(), y.v, [&] { if (&(*x.b = *y.b) != x.b.get()) die("identity", "assignment does not return its target"); }); };
            if (k == "set") doSet(a, op.arg(2));
            else if (k == "sets") { std::int64_t v = std::int64_t(op.arg(2)); step("setTo", a, 2, v < 0 ? fromU(0 - u64(v), -1) : fromU(u64(v)), [&] { a.b->setTo(v); }); }
            else if (k == "zero") step("setToZero", a, 0, Z(), [&] { a.b->setToZero(); });
            else if (k == "neg") step("negate", a, 0, neg(a.v), [&] { a.b->negate(); });
            else if (k == "add") doAdd(a, b);
            else if (k == "sub") doSub(a, b);
            else if (k == "mul") doMul(a, b);
            else if (k == "shl") doShl(a, unsigned(op.arg(2) % 100000));
            else if (k == "copy") doCopy(a, b);
            else if (k == "load") {     // an integer with the given digits, from most to least significant
                Slot t; t.open(2, 7);
                step("setToZero", a, 0, Z(), [&] { a.b->setToZero(); });
                for (size_t d = 2; d < op.a.size(); ++d) {
                    if (!doShl(a, 32)) break;
                    t.v = fromU(u32(op.a[d])); t.b->setTo(std::uint64_t(u32(op.a[d])));
                    if (!doAdd(a, t)) break;
                }
                if (op.arg(1) & 1) step("negate", a, 0, neg(a.v), [&] { a.b->negate(); });
            } else if (k == "near") {   // b ± a little, so that differences cancel leading digits
                if (i != j && doCopy(a, b)) {
                    Slot t; t.open(2, 9);
                    u64 v = op.arg(2) >> (op.arg(2) % 61);
                    t.v = fromU(v); t.b->setTo(v);
                    if (op.arg(2) & 1 ? doAdd(a, t) : doSub(a, t)) doSub(a, b);
                }
            } else if (k == "addm") { if (doAdd(a, b)) doMul(a, a); }
            else if (k == "submul") { if (doMul(a, b)) { if (doSub(b, a)) doAdd(a, b); } }
            else continue;
            run.count("probe.operations");
            if (na == 0 || nb == 0) run.count("probe.zero_operand");
            if (i == j) run.count("probe.same_operand");
            if (na > 20) run.count("probe.more_than_20_digits");
            Hash h; h.u(a.v.sign + 1); for (u32 d : digits(a.v)) h.u(d);
            run.log.u(h.h);
            run.state(h.h);
        }
    }
};

WorldInfo info = {"C15", [] { return std::unique_ptr<World>(new BigWorld()); },
    "a run applies a random history (8-200 operations of 15 kinds, random subset per run) to 4 big integers in heap digit arrays of exactly the given capacity (0-200 digits, tight in 40 % of the runs), some with an allocation failing, and compares all of them with a schoolbook reference after every primitive; non-trivial: at least one operation succeeded or ran out of digits",
    "BigInteger (include/lsst/sphgeom/BigInteger.h and src/BigInteger.cc) with AddressSanitizer",
    "allocator (fails on command); digit arrays owned by the simulator; reference integers in base 2^16", "distinct integer values reached", 20000, 500000, nullptr};
RegisterWorld reg(&info);

} // namespace
