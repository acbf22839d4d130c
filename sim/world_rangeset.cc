// C04 and C05: histories of range set operations against a reference model
// (mathematical sets of integers as lists of disjoint intervals over [0, 2^64]),
// with simulated memory exhaustion.
#include "lib.h"
#include <algorithm>
#include <array>
#include <list>
#include <map>

using namespace sim;
using sg_RangeSet = lsst::sphgeom::RangeSet;

namespace {

using RS = lsst::sphgeom::RangeSet;
using u128 = unsigned __int128;
constexpr u128 TOP = u128(1) << 64;

// ---- reference model ----------------------------------------------------------

struct Model {
    std::vector<std::pair<u128, u128>> r;   // disjoint, non-adjacent, ascending
    bool operator==(Model const & o) const { return r == o.r; }
    bool empty() const { return r.empty(); }
    bool full() const { return r.size() == 1 && r[0].first == 0 && r[0].second == TOP; }
};
Model norm(std::vector<std::pair<u128, u128>> v) {
    Model m;
    std::sort(v.begin(), v.end());
    for (auto & p : v) {
        if (p.first >= p.second) continue;
        if (!m.r.empty() && p.first <= m.r.back().second) m.r.back().second = std::max(m.r.back().second, p.second);
        else m.r.push_back(p);
    }
    return m;
}
Model mcompl(Model const & a) {
    Model m;
    u128 at = 0;
    for (auto & p : a.r) { if (p.first > at) m.r.push_back({at, p.first}); at = p.second; }
    if (at < TOP) m.r.push_back({at, TOP});
    return m;
}
Model mrange(u64 first, u64 last) {
    if (first == last) return norm({{0, TOP}});
    if (last == 0) return norm({{first, TOP}});
    if (first < last) return norm({{first, last}});
    return norm({{0, last}, {first, TOP}});
}
Model mor(Model const & a, Model const & b) { auto v = a.r; v.insert(v.end(), b.r.begin(), b.r.end()); return norm(v); }
Model mand(Model const & a, Model const & b) {
    std::vector<std::pair<u128, u128>> v;
    size_t i = 0, j = 0;
    while (i < a.r.size() && j < b.r.size()) {
        u128 lo = std::max(a.r[i].first, b.r[j].first), hi = std::min(a.r[i].second, b.r[j].second);
        if (lo < hi) v.push_back({lo, hi});
        if (a.r[i].second < b.r[j].second) ++i; else ++j;
    }
    return norm(v);
}
Model msub(Model const & a, Model const & b) { return mand(a, mcompl(b)); }
Model mxor(Model const & a, Model const & b) { return mor(msub(a, b), msub(b, a)); }
Model msimplify(Model const & a, u64 n) {
    if (n >= 64) return a.empty() ? a : mrange(0, 0);
    std::vector<std::pair<u128, u128>> v;
    u128 m = (u128(1) << n) - 1;
    for (auto & p : a.r) v.push_back({p.first & ~m, std::min(TOP, (p.second + m) & ~m)});
    return norm(v);
}
Model mscale(Model const & a, u64 k) {
    std::vector<std::pair<u128, u128>> v;
    auto mul = [&](u128 x) -> u128 { if (x == 0 || k == 0) return 0; if (x > TOP / k) return TOP; return std::min(TOP, x * k); };
    for (auto & p : a.r) v.push_back({mul(p.first), mul(p.second)});
    return norm(v);
}

// ---- the world ----------------------------------------------------------------

constexpr int NS = 4;

struct World_ : World {
    bool faults;   // C05: memory exhaustion is the point; C04: now and then
    explicit World_(bool f) : faults(f) {}

    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        // Points of interest of this run; small universes make collisions frequent.
        std::vector<u64> pts = {0};
        int np = r.range(2, 10);
        int style = r.below(4);
        for (int i = 0; i < np; ++i) {
            u64 v;
            switch (style == 3 ? r.below(3) : style) {
                case 0: v = r.below(24); break;
                case 1: v = 0 - r.below(24); break;
                default: v = r.chance(0.5) ? (u64(1) << r.below(64)) : r.next() >> r.below(64); break;
            }
            pts.push_back(v);
        }
        auto val = [&]() -> u64 { u64 v = r.pick(pts); switch (r.below(6)) { case 0: return v + 1; case 1: return v - 1; case 2: return r.chance(0.1) ? r.next() : v; default: return v; } };
        auto slot = [&] { return r.below(NS); };
        double pFail = faults ? r.real(0.3, 1.0) : (r.chance(0.3) ? 0.15 : 0.0);
        double pQuery = r.real(0.1, 0.5);
        bool big = r.chance(0.25), huge = big && r.chance(0.2);
        int n = r.range(6, thorough ? 160 : 70);
        std::vector<std::string> kinds = {"ins", "ins1", "insT", "era", "era1", "eraT", "compl", "not", "iand", "ior", "isub", "ixor", "and", "or", "sub", "xor",
            "meth", "simp", "simpd", "scale", "scaled", "clear", "fill", "copy", "move", "swap", "ctor", "ctorv", "ctort", "ctoril", "ctorit", "insown", "new", "self", "comb"};
        std::vector<std::string> on;
        for (auto & k : kinds) if (r.chance(0.6)) on.push_back(k);
        for (auto k : {"ins", "era", "ins1"}) if (r.chance(0.8)) on.push_back(k);
        if (on.empty()) on.push_back("ins");
        for (int i = 0; i < n; ++i) {
            if (r.chance(pQuery)) { p.add(r.chance(0.25) ? "iter" : "query", {slot(), slot(), val(), val(), val()}); continue; }
            std::string k = r.pick(on);
            if (k == "comb" && !big && !r.chance(0.2)) k = "ins";
            if (r.chance(pFail)) p.add("exhaust", {r.below(3) ? u64(0) : r.chance(0.75) ? u64(1) : u64(2), r.chance(0.15) ? u64(1) : u64(0)});
            std::vector<u64> a = {slot(), slot(), slot(), val(), val(), val(), val(), r.next() % 97};
            if (k == "comb") { a[6] = big ? r.range(1, 60) : r.range(1, 8); if (huge) a.push_back(r.range(2, 12)); }
            p.add(k, a);
        }
        for (u64 s = 0; s < NS; ++s) p.add("query", {s, slot(), val(), val(), val()});
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        for (size_t i = 0; i < op.a.size(); ++i) {
            if (op.a[i] == 0) continue;
            for (u64 v : {u64(0), u64(1), u64(2), op.a[i] / 2, op.a[i] - 1}) if (v < op.a[i]) { Op t = op; t.a[i] = v; out.push_back(t); if (i < 3) break; }
        }
        return out;
    }

    std::unique_ptr<RS> S[NS];
    Model M[NS];

    static std::vector<std::pair<u64, u64>> ranges(Model const & m) {
        std::vector<std::pair<u64, u64>> v;
        for (auto & p : m.r) v.push_back({u64(p.first), u64(p.second)});
        return v;
    }
    static std::string show(std::vector<std::pair<u64, u64>> const & v) {
        std::string s = "{";
        char b[64];
        for (size_t i = 0; i < v.size() && i < 12; ++i) { std::snprintf(b, sizeof b, "%s[%llu,%llu)", i ? " " : "", (unsigned long long)v[i].first, (unsigned long long)v[i].second); s += b; }
        if (v.size() > 12) s += " ...";
        return s + "}";
    }
    // Compare a set with its model using iteration and the basic observers.
    void check(Run & run, RS const & s, Model const & m, char const * where) {
        auto want = ranges(m);
        std::vector<std::pair<u64, u64>> got;
        size_t limit = want.size() + 3;
        if (!sut([&] { return s.isValid(); })) run.fail("invalid", "%s: isValid() is false (expected %s)", where, show(want).c_str());
        for (auto it = s.begin(), e = s.end(); it != e && got.size() < limit; ++it) { auto t = *it; got.push_back({std::get<0>(t), std::get<1>(t)}); }
        if (got != want) run.fail("wrong-set", "%s: holds %s, expected %s", where, show(got).c_str(), show(want).c_str());
        auto wantc = ranges(mcompl(m));
        got.clear();
        limit = wantc.size() + 3;
        for (auto it = s.beginc(), e = s.endc(); it != e && got.size() < limit; ++it) { auto t = *it; got.push_back({std::get<0>(t), std::get<1>(t)}); }
        if (got != wantc) run.fail("wrong-complement", "%s: complement iterates as %s, expected %s", where, show(got).c_str(), show(wantc).c_str());
        if (s.size() != want.size()) run.fail("wrong-size", "%s: size() is %zu, expected %zu", where, s.size(), want.size());
        if (s.empty() != m.empty() || s.full() != m.full()) run.fail("wrong-emptiness", "%s: empty() %d full() %d for %s", where, s.empty(), s.full(), show(want).c_str());
        u64 card = 0;
        for (auto & p : m.r) card += u64(p.second - p.first);
        if (s.cardinality() != card) run.fail("wrong-cardinality", "%s: cardinality() is %llu for %s", where, (unsigned long long)s.cardinality(), show(want).c_str());
    }
    void checkAll(Run & run, char const * where) { for (int i = 0; i < NS; ++i) { char b[96]; std::snprintf(b, sizeof b, "%s, set %d", where, i); check(run, *S[i], M[i], b); } }

    void iterate(Run & run, RS const & s, Model const & m) {
        for (int side = 0; side < 2; ++side) {
            auto want = ranges(side ? mcompl(m) : m);
            auto b = side ? s.beginc() : s.begin(), e = side ? s.endc() : s.end();
            using It = RS::Iterator;
            auto at = [&](It i) { auto t = *i; return std::make_pair(std::get<0>(t), std::get<1>(t)); };
            ptrdiff_t n = want.size();
            if (e - b != n) run.fail("iterator", "end - begin is %td, expected %td", e - b, n);
            if (side == 0 && (s.cbegin() != s.begin() || s.cend() != s.end())) run.fail("iterator", "cbegin/cend differ from begin/end");
            if ((b == e) != (n == 0) || (b != e) != (n != 0) || (b < e) != (n > 0) || (e > b) != (n > 0) || !(b <= e) || !(e >= b)) run.fail("iterator", "iterator comparison");
            std::vector<std::pair<u64, u64>> g;
            for (It i = b; i != e && ptrdiff_t(g.size()) <= n; i++) g.push_back(at(i));
            if (g != want) run.fail("iterator", "post-increment iteration gives %s, expected %s", show(g).c_str(), show(want).c_str());
            g.clear();
            for (It i = e; i != b && ptrdiff_t(g.size()) <= n;) { if (g.size() % 2) --i; else { It old = i--; if (old - i != 1) run.fail("iterator", "post-decrement"); } g.insert(g.begin(), at(i)); }
            if (g != want) run.fail("iterator", "backward iteration gives %s, expected %s", show(g).c_str(), show(want).c_str());
            for (ptrdiff_t k = 0; k < n && k < 12; ++k) {
                It p = b + k, q = k + b, r = e - (n - k), t = b, u = e;
                t += k; u -= n - k;
                if (!(p == q) || !(p == r) || !(p == t) || !(p == u)) run.fail("iterator", "iterator arithmetic: begin + %td, %td + begin, end - %td and the in-place forms disagree", k, k, n - k);
                if (at(p) != want[k]) run.fail("iterator", "begin + %td is wrong", k);
                auto x = b[k], y = e[k - n];
                if (std::make_pair(std::get<0>(x), std::get<1>(x)) != want[k] || x != y) run.fail("iterator", "iterator indexing is wrong at %td", k);
                t = e;
                swap(p, t);
                if (p - b != n || e - t != n - k) run.fail("iterator", "iterator difference is wrong at %td", k);
            }
            if (side == 0) {
                size_t c = 0;
                for (auto t : s) { if (c >= want.size() || std::get<0>(t) != want[c].first || std::get<1>(t) != want[c].second) run.fail("iterator", "range-for is wrong"); ++c; }
            }
        }
    }

    void query(Run & run, int i, int j, u64 x, u64 y, u64 z) {
        RS const & s = *S[i];
        RS const & t = *S[j];
        Model const & m = M[i];
        Model const & o = M[j];
        auto expect = [&](char const * what, bool got, bool want) {
            if (got != want) run.fail("wrong-answer", "%s is %d, expected %d, for %s and (%llu, %llu), %s", what, got, want, show(ranges(m)).c_str(), (unsigned long long)x, (unsigned long long)y, show(ranges(o)).c_str());
        };
        Model one = mrange(x, x + 1), rg = mrange(x, y);
        sut([&] {
            expect("intersects(u)", s.intersects(x), !mand(m, one).empty());
            expect("intersects(first, last)", s.intersects(x, y), !mand(m, rg).empty());
            expect("intersects(set)", s.intersects(t), !mand(m, o).empty());
            expect("contains(u)", s.contains(x), msub(one, m).empty());
            expect("contains(first, last)", s.contains(x, y), msub(rg, m).empty());
            expect("contains(set)", s.contains(t), msub(o, m).empty());
            expect("isWithin(u)", s.isWithin(x), msub(m, one).empty());
            expect("isWithin(first, last)", s.isWithin(x, y), msub(m, rg).empty());
            expect("isWithin(set)", s.isWithin(t), msub(m, o).empty());
            expect("isDisjointFrom(u)", s.isDisjointFrom(x), mand(m, one).empty());
            expect("isDisjointFrom(first, last)", s.isDisjointFrom(x, y), mand(m, rg).empty());
            expect("isDisjointFrom(set)", s.isDisjointFrom(t), mand(m, o).empty());
            expect("==", s == t, m == o);
            expect("!=", s != t, !(m == o));
            expect("max_size() < size()", s.max_size() < s.size(), false);
        });
        // The text form lists the same numbers in the same order.
        if (z % 4 == 0) {
            std::ostringstream os;
            sut([&] { os << s; });
            std::vector<std::string> got, want;
            bool in = false;
            for (char c : os.str()) { bool dig = c >= '0' && c <= '9'; if (dig) { if (!in) got.push_back(""); got.back() += c; } in = dig; }
            for (auto & p : ranges(m)) { want.push_back(std::to_string(p.first)); want.push_back(std::to_string(p.second)); }
            if (got != want) run.fail("wrong-text", "%s is printed as %s", show(ranges(m)).c_str(), os.str().substr(0, 300).c_str());
        }
    }

    // Performs one operation on the real sets; false if it has no such name.
    bool apply(Op const & op, Run & run) {
        std::string const & k = op.name;
        int d = op.arg(0) % NS, a = op.arg(1) % NS, b = op.arg(2) % NS;
        u64 x = op.arg(3), y = op.arg(4), z = op.arg(5), w = op.arg(6), e = op.arg(7);
        RS & D = *S[d]; RS & A = *S[a]; RS & B = *S[b];
        using T = std::tuple<u64, u64>;
        if (k == "ins") D.insert(x, y);
        else if (k == "ins1") D.insert(x);
        else if (k == "insT") { if (e % 3 == 0) D.insert(std::tuple<int, int>(int(x), int(y))); else if (e % 3 == 1) D.insert(T(x, y)); else D.insert(std::make_tuple(std::uint32_t(x), std::uint32_t(y))); }
        else if (k == "era") D.erase(x, y);
        else if (k == "era1") D.erase(x);
        else if (k == "eraT") { if (e % 2) D.erase(T(x, y)); else D.erase(std::tuple<int, int>(int(x), int(y))); }
        else if (k == "compl") { RS & r = D.complement(); if (&r != &D) run.fail("identity", "complement() does not return its target"); }
        else if (k == "not") { if (e % 2) D = ~A; else D = A.complemented(); }
        else if (k == "iand") { if (&(D &= A) != &D) run.fail("identity", "operator&= does not return its target"); }
        else if (k == "ior") { if (&(D |= A) != &D) run.fail("identity", "operator|= does not return its target"); }
        else if (k == "isub") { if (&(D -= A) != &D) run.fail("identity", "operator-= does not return its target"); }
        else if (k == "ixor") { if (&(D ^= A) != &D) run.fail("identity", "operator^= does not return its target"); }
        else if (k == "and") D = A & B;
        else if (k == "or") D = A | B;
        else if (k == "sub") D = A - B;
        else if (k == "xor") D = A ^ B;
        else if (k == "meth") { switch (e % 4) { case 0: D = A.intersection(B); break; case 1: D = A.join(B); break; case 2: D = A.difference(B); break; default: D = A.symmetricDifference(B); } }
        else if (k == "simp") { if (&D.simplify(e % 70) != &D) run.fail("identity", "simplify() does not return its target"); }
        else if (k == "simpd") D = A.simplified(e % 70);
        else if (k == "scale") { if (&D.scale(e % 5 == 0 ? x : e % 9) != &D) run.fail("identity", "scale() does not return its target"); }
        else if (k == "scaled") D = A.scaled(e % 5 == 0 ? x : e % 9);
        else if (k == "clear") D.clear();
        else if (k == "fill") D.fill();
        else if (k == "copy") { if (e % 2) D = A; else { RS t(A); D.swap(t); } }
        else if (k == "move") { RS t(A); if (e % 2) D = std::move(t); else { RS u(std::move(t)); t = u; t.clear(); swap(D, u); } }
        else if (k == "swap") { if (e % 2) swap(D, A); else D.swap(A); }
        else if (k == "ctor") { switch (e % 4) { case 0: D = RS(x); break; case 1: D = RS(x, y); break; case 2: D = RS(T(x, y)); break; default: D = RS(std::tuple<int, int>(int(x), int(y))); } }
        else if (k == "ctorv") { std::vector<u64> v; { Untracked q; v = {x, y, z, w, x}; v.resize(e % 6); } if (e % 2) { RS t(v.begin(), v.end()); D.swap(t); } else D = RS(v); Untracked q; v = std::vector<u64>(); }
        else if (k == "ctort") { std::list<T> v; { Untracked q; v = {T(x, y), T(z, w), T(y, z)}; while (v.size() > e % 4) v.pop_back(); } RS t(v.begin(), v.end()); D = t; Untracked q; v.clear(); }
        else if (k == "ctoril") { if (e % 2) D = RS{{x, y}, {z, w}}; else D = RS({x, y, z}); }
        else if (k == "ctorit") { switch (e % 4) { case 0: D = RS(A.begin(), A.end()); break; case 1: D = RS(A.beginc(), A.endc()); break; case 2: D = RS(A); break; default: { RS const & c = A; RS t(c.cbegin(), c.cend()); D = std::move(t); } } }
        else if (k == "insown") { if (D.size()) { auto t = D.begin()[e % D.size()]; if (e & 1) D.insert(t); else D.erase(t); } }
        else if (k == "new") { std::unique_ptr<RS> t(e % 2 ? new RS(*S[d]) : new RS()); if (!(e % 2)) *t = D; S[d].swap(t); }
        else if (k == "self") { RS & self = D; switch (e % 5) { case 0: D = self; break; case 1: D |= self; break; case 2: D &= self; break; case 3: D.swap(self); break; default: D = D | self; } }
        else if (k == "comb") { for (u64 i = 0; i < w % 64 * (op.a.size() > 8 ? op.arg(8) % 16 : 1); ++i) { D.insert(x + i * (2 + e % 5), x + i * (2 + e % 5) + 1); } }
        else return false;
        return true;
    }
    void model(Op const & op) {
        std::string const & k = op.name;
        int d = op.arg(0) % NS, a = op.arg(1) % NS, b = op.arg(2) % NS;
        u64 x = op.arg(3), y = op.arg(4), z = op.arg(5), w = op.arg(6), e = op.arg(7);
        auto I = [](u64 v) { return u64(std::int64_t(int(v))); };
        if (k == "ins") M[d] = mor(M[d], mrange(x, y));
        else if (k == "ins1") M[d] = mor(M[d], mrange(x, x + 1));
        else if (k == "insT") M[d] = mor(M[d], e % 3 == 0 ? mrange(I(x), I(y)) : e % 3 == 1 ? mrange(x, y) : mrange(std::uint32_t(x), std::uint32_t(y)));
        else if (k == "era") M[d] = msub(M[d], mrange(x, y));
        else if (k == "era1") M[d] = msub(M[d], mrange(x, x + 1));
        else if (k == "eraT") M[d] = msub(M[d], e % 2 ? mrange(x, y) : mrange(I(x), I(y)));
        else if (k == "compl") M[d] = mcompl(M[d]);
        else if (k == "not") M[d] = mcompl(M[a]);
        else if (k == "iand") M[d] = mand(M[d], M[a]);
        else if (k == "ior") M[d] = mor(M[d], M[a]);
        else if (k == "isub") M[d] = msub(M[d], M[a]);
        else if (k == "ixor") M[d] = mxor(M[d], M[a]);
        else if (k == "and") M[d] = mand(M[a], M[b]);
        else if (k == "or") M[d] = mor(M[a], M[b]);
        else if (k == "sub") M[d] = msub(M[a], M[b]);
        else if (k == "xor") M[d] = mxor(M[a], M[b]);
        else if (k == "meth") M[d] = e % 4 == 0 ? mand(M[a], M[b]) : e % 4 == 1 ? mor(M[a], M[b]) : e % 4 == 2 ? msub(M[a], M[b]) : mxor(M[a], M[b]);
        else if (k == "simp") M[d] = msimplify(M[d], e % 70);
        else if (k == "simpd") M[d] = msimplify(M[a], e % 70);
        else if (k == "scale") M[d] = mscale(M[d], e % 5 == 0 ? x : e % 9);
        else if (k == "scaled") M[d] = mscale(M[a], e % 5 == 0 ? x : e % 9);
        else if (k == "clear") M[d] = Model();
        else if (k == "fill") M[d] = mrange(0, 0);
        else if (k == "copy" || k == "move") M[d] = M[a];
        else if (k == "swap") std::swap(M[d], M[a]);
        else if (k == "ctor") M[d] = e % 4 == 0 ? mrange(x, x + 1) : e % 4 == 3 ? mrange(I(x), I(y)) : mrange(x, y);
        else if (k == "ctorv") { u64 v[5] = {x, y, z, w, x}; Model m; for (u64 i = 0; i < e % 6 && i < 5; ++i) m = mor(m, mrange(v[i], v[i] + 1)); if (e % 6 > 5) m = mor(m, mrange(0, 1)); M[d] = m; }
        else if (k == "ctort") { Model m; u64 v[6] = {x, y, z, w, y, z}; for (u64 i = 0; i < std::min<u64>(e % 4, 3); ++i) m = mor(m, mrange(v[2 * i], v[2 * i + 1])); M[d] = m; }
        else if (k == "ctoril") M[d] = e % 2 ? mor(mrange(x, y), mrange(z, w)) : mor(mor(mrange(x, x + 1), mrange(y, y + 1)), mrange(z, z + 1));
        else if (k == "ctorit") M[d] = e % 4 == 1 ? mcompl(M[a]) : M[a];
        else if (k == "insown") { if (!M[d].r.empty() && !(e & 1)) { auto v = M[d].r; v.erase(v.begin() + e % v.size()); M[d].r = v; } }
        else if (k == "self" && e % 5 < 5) {}
        else if (k == "comb") { for (u64 i = 0; i < w % 64 * (op.a.size() > 8 ? op.arg(8) % 16 : 1); ++i) { u64 f = x + i * (2 + e % 5); M[d] = mor(M[d], mrange(f, f + 1)); } }
    }

    void execute(Plan const & plan, Run & run) override {
        u64 base = env::liveBlocks();
        for (int i = 0; i < NS; ++i) S[i] = sut([] { return std::unique_ptr<RS>(new RS()); });
        bool armed = false; u64 amode = 0, only = 0;
        for (auto const & op : plan.ops) {
            ++run.simtime;
            if (op.name == "exhaust") { armed = true; amode = op.arg(0); only = op.arg(1); continue; }
            if (op.name == "query") { query(run, op.arg(0) % NS, op.arg(1) % NS, op.arg(2), op.arg(3), op.arg(4)); run.count("probe.query"); continue; }
            if (op.name == "iter") { iterate(run, *S[op.arg(0) % NS], M[op.arg(0) % NS]); continue; }
            if (armed) {
                armed = false;
                // Fail the 1st, 2nd, ... allocation of this operation until it gets through.
                bool done = false;
                for (u64 kth = 1; kth < 3000 && !done; ++kth) {
                    env::armFailure(amode == 2 ? u64(8) << kth : kth, int(amode));   // 2: no block larger than this
                    bool threw = false;
                    try { sut([&] { apply(op, run); }); }
                    catch (std::bad_alloc const &) { threw = true; }
                    catch (std::exception const & e) { env::disarm(); run.fail("wrong-exception", "%s threw %s when memory ran out", op.name.c_str(), e.what()); }
                    u64 fired = env::disarm();
                    char where[160];
                    if (threw) {
                        if (!fired) run.fail("spurious-bad-alloc", "%s threw std::bad_alloc although memory was available", op.name.c_str());
                        run.count(amode ? "fault.memory_exhausted_persistently" : "fault.allocation_failed");
                        std::snprintf(where, sizeof where, "after %s failed at its allocation %llu", op.name.c_str(), (unsigned long long)kth);
                        run.event("%s", where);
                        // A multi-step helper ("comb") may have completed some of its insertions.
                        if (op.name != "comb") { checkAll(run, where); }
                        else {
                            Model m = M[op.arg(0) % NS]; bool ok = false;
                            u64 x = op.arg(3), st = 2 + op.arg(7) % 5;
                            for (u64 i = 0; i <= op.arg(6) % 64 * (op.a.size() > 8 ? op.arg(8) % 16 : 1) && !ok; ++i) {
                                try { check(run, *S[op.arg(0) % NS], m, where); ok = true; M[op.arg(0) % NS] = m; }
                                catch (Violation const &) { m = mor(m, mrange(x + i * st, x + i * st + 1)); }
                            }
                            checkAll(run, where);
                        }
                        run.nontrivial = true;
                        if (only) break;     // the client gives up: no retry
                    } else {
                        done = true;
                        if (fired) run.count("probe.failure_absorbed");
                        model(op);
                        std::snprintf(where, sizeof where, "after %s succeeded at last", op.name.c_str());
                        checkAll(run, where);
                    }
                }
            } else {
                try { if (!sut([&] { return apply(op, run); })) continue; }
                catch (std::exception const & e) { run.fail("unexpected-exception", "%s threw %s", op.name.c_str(), e.what()); }
                model(op);
                checkAll(run, ("after " + op.name).c_str());
            }
            run.count("probe.operations");
            int d = op.arg(0) % NS;
            Hash h; auto rr = ranges(M[d]);
            h.u(rr.size()); for (auto & p : rr) { h.u(p.first); h.u(p.second); }
            run.log.u(h.h);
            run.state(h.h);
            if (!faults) run.nontrivial = true;
            if (M[d].full()) run.count("probe.full_set");
            if (rr.size() && rr.back().second == 0) run.count("probe.reaches_2^64");
            run.event("%s %d: %zu ranges", op.name.c_str(), d, rr.size());
        }
        sut([&] { for (auto & s : S) s.reset(); });
        if (env::liveBlocks() != base) run.fail("leak", "%lld blocks left after all sets were destroyed", (long long)(env::liveBlocks() - base));
    }
};

WorldInfo info4 = {"C04", [] { return std::unique_ptr<World>(new World_(false)); },
    "a run applies a random history (6-160 operations of 35 kinds, random subset per run) to 4 range sets over a few points of interest (small, near 2^64, powers of two, random) and compares every set with a reference model after every operation; non-trivial: at least one modifying operation",
    "RangeSet (all of include/lsst/sphgeom/RangeSet.h and src/RangeSet.cc) with AddressSanitizer",
    "allocator (may fail on command); reference model of integer sets", "distinct set values reached", 30000, 600000, nullptr};
WorldInfo info5 = {"C05", [] { return std::unique_ptr<World>(new World_(true)); },
    "as C04, but a large share of operations is first attempted with its 1st, 2nd, ... allocation failing (one-shot or persistently) until it gets through; after each failure every set is compared with the reference model; non-trivial: at least one allocation failure was injected",
    "RangeSet (all of include/lsst/sphgeom/RangeSet.h and src/RangeSet.cc) with AddressSanitizer",
    "allocator (fails on command); reference model of integer sets", "distinct set values reached", 30000, 600000, nullptr};
RegisterWorld r4(&info4), r5(&info5);

} // namespace
