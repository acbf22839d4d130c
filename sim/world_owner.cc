// C09: histories of creating, copying, composing, decomposing, mutating, moving
// and destroying regions and the values taken from them, checked after every
// step against a model that knows only values.
#include "lib.h"
#include <array>

using namespace sim;
using namespace simlib;

namespace {

constexpr u64 SLOTS = 10, SETS = 4, BYTES = 4, VALS = 6;

struct Owner : World {
    Plan generate(Rng & r, bool thorough) override {
        Plan p;
        GenOptions o;
        o.maxDepth = r.range(0, 3); o.pCompound = r.real(0, 0.5); o.maxHull = 10;
        genSizes(r, o, 120, 0, r.chance(0.2) ? 150 : 30);
        int n = r.range(8, thorough ? 120 : 50);
        std::vector<char const *> all = {"clone", "copy", "move", "assign", "massign", "mut", "mut", "mut", "compose", "compose", "array", "operand", "hold", "parts", "free", "free", "enc", "dec", "bound",
            "val", "vmut", "vmut", "vcopy", "envelope", "pixel", "rscopy", "rsmove", "rsassign", "rsswap", "rsmut", "rsself", "rsfree", "chain", "oom"}, on;
        for (auto k : all) if (r.chance(0.65)) on.push_back(k);
        on.push_back("mut"); on.push_back("clone");
        if (r.chance(0.3)) p.add("reuse");      // released blocks are handed out again at once
        for (int i = r.range(1, 5); i > 0; --i) { Spec s = genRegion(r, o); s.insert(s.begin(), r.below(SLOTS)); p.add("new", s); }
        for (int i = 0; i < n; ++i) {
            if (r.chance(0.12)) { Spec s = genRegion(r, o); s.insert(s.begin(), r.below(SLOTS)); p.add("new", s); continue; }
            p.add(r.pick(on), {r.below(SLOTS), r.below(SLOTS), r.below(SLOTS), r.next(), bits(r.chance(0.3) ? r.real(-3, 3) : r.real(-0.5, 0.5)), r.next()});
        }
        return p;
    }
    std::vector<Op> simpler(Op const & op) override {
        std::vector<Op> out;
        if (op.name == "new") { for (auto & s : simplerSpecs(Spec(op.a.begin() + 1, op.a.end()))) { s.insert(s.begin(), op.a[0]); out.push_back({"new", s}); } return out; }
        for (size_t i = 0; i < op.a.size(); ++i) for (u64 v : {u64(0), u64(1)}) if (op.a[i] > v) { Op t = op; t.a[i] = v; out.push_back(t); break; }
        return out;
    }

    struct Slot {
        RegionPtr r;
        Bytes bytes;         // expected encoding
        u64 val = 0;         // expected fields
        int type = 0;
        bool moved = false;  // moved from: only assignment and destruction are used
        u64 gen = 0;         // identity, for held references
    };
    struct Held { u64 slot, gen; void const * ref; Bytes bytes; u64 val; int kind; };
    // Plain values taken from regions (or built directly): intervals, boxes, vectors.
    struct Val {
        int kind = -1;
        std::unique_ptr<sg::NormalizedAngleInterval> nai; std::unique_ptr<sg::AngleInterval> ai; std::unique_ptr<sg::Interval1d> iv;
        std::unique_ptr<sg::Box3d> b3; std::unique_ptr<std::vector<sg::UnitVector3d>> vs; std::unique_ptr<sg::Matrix3d> mat;
        u64 want = 0;
        u64 now() const {
            Hash h; h.u(kind);
            if (nai) put(h, *nai);
            if (ai) put(h, *ai);
            if (iv) put(h, *iv);
            if (b3) put(h, *b3);
            if (vs) for (auto const & v : *vs) put(h, v);
            if (mat) put(h, *mat);
            return h.h;
        }
    };
    struct SetSlot { std::unique_ptr<sg::RangeSet> s; std::vector<std::pair<u64, u64>> want; bool moved = false; };
    Slot S[SLOTS];
    SetSlot T[SETS];
    Bytes E[BYTES]; Bytes EW[BYTES];
    Val V[VALS];
    std::vector<Held> held;
    u64 gen = 0;
    Run * run = nullptr;

    static std::vector<std::pair<u64, u64>> list(sg::RangeSet const & s) { std::vector<std::pair<u64, u64>> v; for (auto t : s) v.push_back({std::get<0>(t), std::get<1>(t)}); return v; }
    // A region with the same value that shares nothing with any other.
    RegionPtr fresh(Slot const & s) { Untracked u; Bytes b = s.bytes; return sg::Region::decode(b.data(), b.size()); }

    void set(u64 i, RegionPtr r) {
        Slot & s = S[i % SLOTS];
        drop(i);
        if (!r) return;
        s.r = std::move(r); s.gen = ++gen; s.moved = false;
        note(s);
    }
    void note(Slot & s) { Untracked u; s.bytes = s.r->encode(); s.val = value(*s.r); s.type = typeOf(*s.r); }
    void dropHeld(u64 i) { for (size_t k = 0; k < held.size();) if (held[k].slot == i % SLOTS) { held[k] = held.back(); held.pop_back(); } else ++k; }
    void drop(u64 i) {
        Slot & s = S[i % SLOTS];
        if (!s.r) return;
        dropHeld(i);
        sut([&] { s.r.reset(); });
        s.moved = false;
    }
    Slot * live(u64 i, int type = 0) {
        for (u64 k = 0; k < SLOTS; ++k) { Slot & s = S[(i + k) % SLOTS]; if (s.r && !s.moved && (!type || s.type == type)) return &s; }
        return nullptr;
    }
    u64 idx(Slot const * s) const { return s - S; }
    template <typename X> static X & as(Slot & s) { return dynamic_cast<X &>(*s.r); }
    void same(Slot const & s, char const * what) {
        if (typeOf(*s.r) != s.type) run->fail("type-changed", "after %s a region changed its type", what);
        if (value(*s.r) != s.val) run->fail("value-changed", "after %s region %llu ('%c') does not have the value it should have", what, (unsigned long long)(&s - S), s.type);
        Bytes b = sut([&] { return s.r->encode(); });
        if (b != s.bytes) run->fail("value-changed", "after %s region %llu ('%c') encodes differently", what, (unsigned long long)(&s - S), s.type);
    }
    void verify(char const * what) {
        for (auto & s : S) if (s.r && !s.moved) same(s, what);
        for (auto & h : held) {
            if (h.kind == 0) { auto const & q = *static_cast<sg::Region const *>(h.ref); if (value(q) != h.val || sut([&] { return q.encode(); }) != h.bytes) run->fail("operand-changed", "after %s an operand reference of a live compound changed", what); }
            else { Hash g; for (auto const & v : *static_cast<std::vector<sg::UnitVector3d> const *>(h.ref)) put(g, v); if (g.h != h.val) run->fail("vertices-changed", "after %s the vertices of a live, unchanged polygon changed", what); }
        }
        for (u64 i = 0; i < BYTES; ++i) if (E[i] != EW[i]) run->fail("bytes-changed", "after %s an encoding taken earlier changed", what);
        for (auto & v : V) if (v.kind >= 0 && v.now() != v.want) run->fail("derived-changed", "after %s a value taken from a region changed", what);
        for (auto & t : T) if (t.s && !t.moved) { if (list(*t.s) != t.want || !t.s->isValid()) run->fail("rangeset-changed", "after %s a range set that was not touched changed", what); }
    }
    // All answers agree with an object of the same value that has another history.
    void deep(Slot & s, char const * what) {
        RegionPtr f = fresh(s);
        auto ask = [&](sg::Region const & r) {
            Hash h;
            static sg::UnitVector3d const pts[] = {sg::UnitVector3d(1, 0, 0), sg::UnitVector3d(0, 0, 1), sg::UnitVector3d(-1, 2, 0.3), sg::UnitVector3d(1, 1, 1)};
            for (auto const & p : pts) obs(h, [&](Hash & g) { g.u(r.contains(p)); });
            obs(h, [&](Hash & g) { put(g, r.getBoundingBox()); put(g, r.getBoundingCircle()); put(g, r.getBoundingBox3d()); });
            static sg::Circle const c(sg::UnitVector3d(1, 1, 1), sg::Angle(0.4));
            static sg::ConvexPolygon const q(sg::UnitVector3d(1, 0, 0), sg::UnitVector3d(0, 1, 0), sg::UnitVector3d(0, 0, 1));
            obs(h, [&](Hash & g) { put(g, r.relate(c)); put(g, c.relate(r)); put(g, r.relate(q)); put(g, q.relate(r)); });
            obs(h, [&](Hash & g) { auto v = sg::Region::getRegions(r); g.u(v.size()); for (auto const & x : v) value(g, *x); });
            return h.h;
        };
        u64 a = ask(*s.r), b = ask(*f);
        if (a != b) run->fail("answers-differ", "after %s region %llu ('%c') answers differently from a region of equal value", what, (unsigned long long)idx(&s), s.type);
        if (!sut([&] { return equalRegions(*s.r, *f) && equalRegions(*f, *s.r); })) run->fail("not-equal", "after %s region %llu ('%c') does not compare equal to a region of equal value", what, (unsigned long long)idx(&s), s.type);
        run->log.u(a);
    }

    // Apply f (in place, to the slot's object) and g (copying form, on an
    // independent object of the same value and independent arguments).
    template <typename X, typename F, typename G> void inPlace(Slot & s, char const * what, F f, G g) {
        RegionPtr ind = fresh(s);
        std::unique_ptr<X> want(new X(g(dynamic_cast<X const &>(*ind))));
        void * before = s.r.get();
        X & x = as<X>(s);
        Hash h0; value(h0, *want);
        dropHeld(idx(&s));
        X * ret = sut([&] { return f(x); });
        if (ret != &x) run->fail("wrong-reference", "%s does not return its target", what);
        if (value(*s.r) != h0.h) run->fail("in-place-differs", "%s leaves its target different from what the copying form returns", what);
        if (before != s.r.get()) run->fail("harness", "slot moved");
        note(s);
        run->event("%s on %llu", what, (unsigned long long)idx(&s));
        run->count("probe.in_place_calls");
    }

    void mutate(Op const & op) {
        using namespace sg;
        Slot * s = live(op.arg(0));
        for (u64 k = 0; s && k < SLOTS && !(s->type == 'b' || s->type == 'c' || s->type == 'e'); ++k) s = live(op.arg(0) + k);
        if (!s) return;
        u64 how = op.arg(3);
        Angle t(dbl(op.arg(4)) == dbl(op.arg(4)) && std::fabs(dbl(op.arg(4))) < 10 ? dbl(op.arg(4)) : 0.1), u2(t.asRadians() * 0.5);
        if (s->type == 'b') {
            Slot * q = how & 64 ? s : live(op.arg(1), 'b');
            RegionPtr qi = fresh(*q); Box const & arg = dynamic_cast<Box const &>(*qi);
            Box & alias = as<Box>(*q);
            LonLat ll = how & 128 && !as<Box>(*s).isEmpty() ? as<Box>(*s).getCenter() : LonLat(UnitVector3d(std::cos(t.asRadians() * 7), std::sin(t.asRadians() * 7), t.asRadians()));
            if (q == s) run->count("probe.aliased_arguments");
            switch (how % 8) {
                case 0: return inPlace<Box>(*s, "Box::clipTo(Box)", [&](Box & b) { return &b.clipTo(alias); }, [&](Box const & b) { return b.clippedTo(arg); });
                case 1: return inPlace<Box>(*s, "Box::expandTo(Box)", [&](Box & b) { return &b.expandTo(alias); }, [&](Box const & b) { return b.expandedTo(arg); });
                case 2: return inPlace<Box>(*s, "Box::clipTo(LonLat)", [&](Box & b) { return &b.clipTo(ll); }, [&](Box const & b) { return b.clippedTo(ll); });
                case 3: return inPlace<Box>(*s, "Box::expandTo(LonLat)", [&](Box & b) { return &b.expandTo(ll); }, [&](Box const & b) { return b.expandedTo(ll); });
                case 4: return inPlace<Box>(*s, "Box::dilateBy(r)", [&](Box & b) { return &b.dilateBy(t); }, [&](Box const & b) { return b.dilatedBy(t); });
                case 5: return inPlace<Box>(*s, "Box::dilateBy(w,h)", [&](Box & b) { return &b.dilateBy(t, u2); }, [&](Box const & b) { return b.dilatedBy(t, u2); });
                case 6: return inPlace<Box>(*s, "Box::erodeBy(r)", [&](Box & b) { return &b.erodeBy(t); }, [&](Box const & b) { return b.erodedBy(t); });
                default: return inPlace<Box>(*s, "Box::erodeBy(w,h)", [&](Box & b) { return &b.erodeBy(t, u2); }, [&](Box const & b) { return b.erodedBy(t, u2); });
            }
        }
        if (s->type == 'c') {
            Slot * q = how & 64 ? s : live(op.arg(1), 'c');
            RegionPtr qi = fresh(*q); Circle const & arg = dynamic_cast<Circle const &>(*qi);
            Circle & alias = as<Circle>(*q);
            UnitVector3d away(std::cos(t.asRadians() * 7), std::sin(t.asRadians() * 7), t.asRadians());
            // The centre of a circle (possibly of the target itself), by reference.
            UnitVector3d const & pt = how & 128 ? alias.getCenter() : away;
            UnitVector3d const ptCopy = pt;
            if (q == s) run->count("probe.aliased_arguments");
            switch (how % 7) {
                case 0: return inPlace<Circle>(*s, "Circle::clipTo(Circle)", [&](Circle & c) { return &c.clipTo(alias); }, [&](Circle const & c) { return c.clippedTo(arg); });
                case 1: return inPlace<Circle>(*s, "Circle::expandTo(Circle)", [&](Circle & c) { return &c.expandTo(alias); }, [&](Circle const & c) { return c.expandedTo(arg); });
                case 2: return inPlace<Circle>(*s, "Circle::clipTo(point)", [&](Circle & c) { return &c.clipTo(pt); }, [&](Circle const & c) { return c.clippedTo(ptCopy); });
                case 3: return inPlace<Circle>(*s, "Circle::expandTo(point)", [&](Circle & c) { return &c.expandTo(pt); }, [&](Circle const & c) { return c.expandedTo(ptCopy); });
                case 4: return inPlace<Circle>(*s, "Circle::dilateBy", [&](Circle & c) { return &c.dilateBy(t); }, [&](Circle const & c) { return c.dilatedBy(t); });
                case 5: return inPlace<Circle>(*s, "Circle::erodeBy", [&](Circle & c) { return &c.erodeBy(t); }, [&](Circle const & c) { return c.erodedBy(t); });
                default: return inPlace<Circle>(*s, "Circle::complement", [&](Circle & c) { return &c.complement(); }, [&](Circle const & c) { return c.complemented(); });
            }
        }
        if (s->type == 'e') inPlace<Ellipse>(*s, "Ellipse::complement", [&](Ellipse & e) { return &e.complement(); }, [&](Ellipse const & e) { return e.complemented(); });
    }

    // Independent values and their in-place modifiers.
    template <typename X, typename F, typename G> void vInPlace(Val & v, X & x, char const * what, F f, G g) {
        X const copy(x);
        X want = g(copy);
        void const * ret = sut([&] { return f(x); });
        if (ret != &x) run->fail("wrong-reference", "%s does not return its target", what);
        Hash a, b; put(a, x); put(b, want);
        if (a.h != b.h) run->fail("in-place-differs", "%s leaves its target different from what the copying form returns", what);
        v.want = v.now();
        run->event("%s", what);
        run->count("probe.in_place_calls");
    }
    template <typename I, typename P> void vInterval(Val & v, I & x, I const & y, P const & p, double d, u64 how, char const * name) {
        I const yc(y);
        std::string n = std::string(name);
        using Amount = typename std::conditional<std::is_same<I, sg::Interval1d>::value, double, sg::Angle>::type;
        Amount w(d);
        switch (how % 6) {
            case 0: return vInPlace(v, x, (n + "::clipTo(interval)").c_str(), [&](I & i) { return &i.clipTo(y); }, [&](I const & i) { return i.clippedTo(yc); });
            case 1: return vInPlace(v, x, (n + "::expandTo(interval)").c_str(), [&](I & i) { return &i.expandTo(y); }, [&](I const & i) { return i.expandedTo(yc); });
            case 2: return vInPlace(v, x, (n + "::clipTo(point)").c_str(), [&](I & i) { return &i.clipTo(p); }, [&](I const & i) { return i.clippedTo(p); });
            case 3: return vInPlace(v, x, (n + "::expandTo(point)").c_str(), [&](I & i) { return &i.expandTo(p); }, [&](I const & i) { return i.expandedTo(p); });
            case 4: return vInPlace(v, x, (n + "::dilateBy").c_str(), [&](I & i) { return &i.dilateBy(w); }, [&](I const & i) { return i.dilatedBy(w); });
            default: return vInPlace(v, x, (n + "::erodeBy").c_str(), [&](I & i) { return &i.erodeBy(w); }, [&](I const & i) { return i.erodedBy(w); });
        }
    }
    void vmutate(Op const & op) {
        using namespace sg;
        Val & v = V[op.arg(0) % VALS];
        if (v.kind < 0) return;
        u64 how = op.arg(3);
        double d = dbl(op.arg(4));
        if (!(std::fabs(d) < 10)) d = 0.1;
        // The argument: the value itself (aliasing), another of the same kind, or a constant.
        Val * o = how & 64 ? &v : &V[op.arg(1) % VALS];
        if (o->kind != v.kind) o = &v;
        if (o == &v) run->count("probe.aliased_arguments");
        if (v.nai) { NormalizedAngle p = how & 128 ? v.nai->getA() : NormalizedAngle(d); vInterval(v, *v.nai, *o->nai, p, d, how, "NormalizedAngleInterval"); }
        else if (v.ai) { Angle p = how & 128 ? v.ai->getB() : Angle(d); vInterval(v, *v.ai, *o->ai, p, d, how, "AngleInterval"); }
        else if (v.iv) { double p = how & 128 ? v.iv->getA() : d; vInterval(v, *v.iv, *o->iv, p, d, how, "Interval1d"); }
        else if (v.b3) {
            Box3d & x = *v.b3; Box3d const & y = *o->b3; Box3d const yc(y);
            Vector3d p = how & 128 ? x.getCenter() : Vector3d(d, -d, 0.2);
            switch (how % 6) {
                case 0: return vInPlace(v, x, "Box3d::clipTo(Box3d)", [&](Box3d & b) { return &b.clipTo(y); }, [&](Box3d const & b) { return b.clippedTo(yc); });
                case 1: return vInPlace(v, x, "Box3d::expandTo(Box3d)", [&](Box3d & b) { return &b.expandTo(y); }, [&](Box3d const & b) { return b.expandedTo(yc); });
                case 2: return vInPlace(v, x, "Box3d::clipTo(point)", [&](Box3d & b) { return &b.clipTo(p); }, [&](Box3d const & b) { return b.clippedTo(p); });
                case 3: return vInPlace(v, x, "Box3d::expandTo(point)", [&](Box3d & b) { return &b.expandTo(p); }, [&](Box3d const & b) { return b.expandedTo(p); });
                case 4: return vInPlace(v, x, "Box3d::dilateBy", [&](Box3d & b) { return &b.dilateBy(d, 2 * d, 0.0); }, [&](Box3d const & b) { return b.dilatedBy(d, 2 * d, 0.0); });
                default: return vInPlace(v, x, "Box3d::erodeBy", [&](Box3d & b) { return &b.erodeBy(d); }, [&](Box3d const & b) { return b.erodedBy(d); });
            }
        }
        else if (v.vs && !v.vs->empty()) { (*v.vs)[how % v.vs->size()] = UnitVector3d(d, 1, 2); v.want = v.now(); }
        else if (v.mat) { *v.mat = *v.mat + *v.mat; v.want = v.now(); }
    }

    RegionPtr copyOf(sg::Region const & r) {
        using namespace sg;
        if (auto p = dynamic_cast<Box const *>(&r)) return RegionPtr(new Box(*p));
        if (auto p = dynamic_cast<Circle const *>(&r)) return RegionPtr(new Circle(*p));
        if (auto p = dynamic_cast<Ellipse const *>(&r)) return RegionPtr(new Ellipse(*p));
        if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) return RegionPtr(new ConvexPolygon(*p));
        if (auto p = dynamic_cast<UnionRegion const *>(&r)) return RegionPtr(new UnionRegion(*p));
        return RegionPtr(new IntersectionRegion(dynamic_cast<IntersectionRegion const &>(r)));
    }
    RegionPtr movedFrom(sg::Region & r) {
        using namespace sg;
        if (auto p = dynamic_cast<Box *>(&r)) return RegionPtr(new Box(std::move(*p)));
        if (auto p = dynamic_cast<Circle *>(&r)) return RegionPtr(new Circle(std::move(*p)));
        if (auto p = dynamic_cast<Ellipse *>(&r)) return RegionPtr(new Ellipse(std::move(*p)));
        if (auto p = dynamic_cast<ConvexPolygon *>(&r)) return RegionPtr(new ConvexPolygon(std::move(*p)));
        if (auto p = dynamic_cast<UnionRegion *>(&r)) return RegionPtr(new UnionRegion(std::move(*p)));
        return RegionPtr(new IntersectionRegion(std::move(dynamic_cast<IntersectionRegion &>(r))));
    }
    static void assignTo(sg::Region & d, sg::Region & s, bool move) {
        using namespace sg;
        if (auto p = dynamic_cast<Box *>(&d)) { auto & q = dynamic_cast<Box &>(s); if (move) *p = std::move(q); else *p = q; }
        else if (auto p = dynamic_cast<Circle *>(&d)) { auto & q = dynamic_cast<Circle &>(s); if (move) *p = std::move(q); else *p = q; }
        else if (auto p = dynamic_cast<Ellipse *>(&d)) { auto & q = dynamic_cast<Ellipse &>(s); if (move) *p = std::move(q); else *p = q; }
        else if (auto p = dynamic_cast<ConvexPolygon *>(&d)) { auto & q = dynamic_cast<ConvexPolygon &>(s); if (move) *p = std::move(q); else *p = q; }
    }
    void mustEqual(RegionPtr const & r, Slot const & s, char const * what) {
        if (!r || typeOf(*r) != s.type || value(*r) != s.val) run->fail("copy-differs", "%s of a '%c' differs from the original", what, s.type);
    }

    void step(Op const & op) {
        using namespace sg;
        ++run->simtime;
        u64 a = op.arg(0), b = op.arg(1), c = op.arg(2), x = op.arg(3);
        std::string const & k = op.name;
        Slot * s = live(b);
        if (k == "new") { if (op.a.size() > 1) { RegionPtr r = tryBuild(Spec(op.a.begin() + 1, op.a.end())); if (r) set(a, std::move(r)); } }
        else if (k == "free") { drop(a); }
        else if (k == "mut") mutate(op);
        else if (k == "vmut") vmutate(op);
        else if (k == "vcopy") {
            Val & d = V[a % VALS]; Val & o = V[b % VALS];
            if (o.kind < 0 || &d == &o) return;
            d = Val(); d.kind = o.kind;
            if (o.nai) d.nai.reset(new NormalizedAngleInterval(*o.nai));
            if (o.ai) d.ai.reset(new AngleInterval(*o.ai));
            if (o.iv) d.iv.reset(new Interval1d(*o.iv));
            if (o.b3) d.b3.reset(new Box3d(*o.b3));
            if (o.vs) d.vs.reset(new std::vector<UnitVector3d>(*o.vs));
            if (o.mat) d.mat.reset(new Matrix3d(*o.mat));
            d.want = o.want;
        }
        else if (k.compare(0, 2, "rs") == 0) {
            SetSlot & t = T[a % SETS]; SetSlot & o = T[b % SETS];
            if (k == "rsfree") { sut([&] { t.s.reset(); }); return; }
            if (!o.s || o.moved) return;
            if (k == "rscopy") { auto w = o.want; std::unique_ptr<RangeSet> n(sut([&] { return new RangeSet(*o.s); })); sut([&] { t.s = std::move(n); }); t.want = w; t.moved = false; }
            else if (k == "rsmove") { if (&t == &o) return; auto w = o.want; std::unique_ptr<RangeSet> n(sut([&] { return new RangeSet(std::move(*o.s)); })); o.moved = true; sut([&] { t.s = std::move(n); }); t.want = w; t.moved = false; }
            else if (k == "rsassign") { if (!t.s) return; sut([&] { *t.s = *o.s; }); t.want = o.want; t.moved = false; }
            else if (k == "rsswap") { if (!t.s || t.moved) return; sut([&] { if (x & 1) t.s->swap(*o.s); else { using std::swap; swap(*t.s, *o.s); } }); std::swap(t.want, o.want); }
            else if (k == "rsmut" || k == "rsself") {
                if (!t.s || t.moved) return;
                RangeSet & q = k == "rsself" ? *t.s : *o.s;
                RangeSet ref(*t.s), arg(q);
                RangeSet want;
                u64 m = x % 8, lo = op.arg(5) % 1000, hi = lo + 1 + op.arg(4) % 100;
                sut([&] {
                    switch (m) {
                        case 0: want = ref & arg; *t.s &= q; break;
                        case 1: want = ref | arg; *t.s |= q; break;
                        case 2: want = ref - arg; *t.s -= q; break;
                        case 3: want = ref ^ arg; *t.s ^= q; break;
                        case 4: want = ~ref; t.s->complement(); break;
                        case 5: want = ref.simplified(lo % 12); t.s->simplify(lo % 12); break;
                        case 6: want = ref; want |= RangeSet(lo, hi); t.s->insert(lo, hi); break;
                        default: want = ref; want -= RangeSet(lo, hi); t.s->erase(lo, hi); break;
                    }
                });
                t.want = list(want);
                if (list(*t.s) != t.want || !(*t.s == want)) run->fail("in-place-differs", "an in-place range set operation (%llu) differs from its copying form", (unsigned long long)m);
                run->count("probe.in_place_calls");
            }
        }
        else if (!s) return;
        else if (k == "clone") { RegionPtr r = sut([&] { return s->r->clone(); }); mustEqual(r, *s, "a clone"); set(a, std::move(r)); }
        else if (k == "copy") { RegionPtr r = sut([&] { return copyOf(*s->r); }); mustEqual(r, *s, "a copy"); set(a, std::move(r)); }
        else if (k == "move") {
            if (idx(s) == a % SLOTS) return;
            RegionPtr r = sut([&] { return movedFrom(*s->r); });
            mustEqual(r, *s, "a moved region");
            dropHeld(idx(s));
            s->moved = true;
            set(a, std::move(r));
            if (s->type == 'u' || s->type == 'i' || (x & 1)) drop(idx(s));
        }
        else if (k == "assign" || k == "massign") {
            Slot * d = nullptr;
            for (u64 i = 0; i < SLOTS && !d; ++i) { Slot & q = S[(a + i) % SLOTS]; if (q.r && q.type == s->type && (k == "assign" || &q != s)) d = &q; }
            if (!d || s->type == 'u' || s->type == 'i') return;
            bool mv = k == "massign";
            Bytes wb = s->bytes; u64 wv = s->val;
            dropHeld(idx(d)); if (mv) dropHeld(idx(s));
            sut([&] { assignTo(*d->r, *s->r, mv); });
            if (mv) s->moved = true;
            d->moved = false; d->bytes = wb; d->val = wv;
            if (mv && (x & 1)) drop(idx(s));
        }
        else if (k == "compose") {
            Slot * t = live(c);
            RegionPtr r = sut([&]() -> RegionPtr { if (x & 1) return RegionPtr(new UnionRegion(*s->r, *t->r)); return RegionPtr(new IntersectionRegion(*s->r, *t->r)); });
            if (r->encode().size() > 20000) return;
            auto const & cr = dynamic_cast<CompoundRegion const &>(*r);
            if (value(cr.getOperand(0)) != s->val || value(cr.getOperand(1)) != t->val) run->fail("operand-differs", "the operands of a new compound differ from the regions it was made of");
            if (&cr.getOperand(0) == s->r.get() || &cr.getOperand(1) == t->r.get()) run->fail("operand-shared", "a compound refers to the region it was made of instead of a copy");
            set(a, std::move(r));
            run->count("probe.compounds");
        }
        else if (k == "array") {
            Slot * t = live(c);
            RegionPtr r = sut([&]() -> RegionPtr { std::array<RegionPtr, 2> o = {s->r->clone(), t->r->clone()}; if (x & 1) return RegionPtr(new UnionRegion(std::move(o))); return RegionPtr(new IntersectionRegion(std::move(o))); });
            if (r->encode().size() > 20000) return;
            auto const & cr = dynamic_cast<CompoundRegion const &>(*r);
            if (value(cr.getOperand(0)) != s->val || value(cr.getOperand(1)) != t->val) run->fail("operand-differs", "the operands of a new compound differ from the regions it was made of");
            set(a, std::move(r));
        }
        else if (k == "chain") {
            // Nest repeatedly, releasing every intermediate.
            RegionPtr r = sut([&] { return s->r->clone(); });
            for (u64 i = 0; i < x % 6; ++i) r = sut([&]() -> RegionPtr { if (x >> i & 64) return RegionPtr(new UnionRegion(*r, *s->r)); return RegionPtr(new IntersectionRegion(*s->r, *r)); });
            if (r->encode().size() > 20000) return;
            set(a, std::move(r));
        }
        else if (k == "operand" || k == "hold") {
            Slot * q = s;
            for (u64 i = 0; i < SLOTS && !(q->type == 'u' || q->type == 'i' || (k == "hold" && q->type == 'p')); ++i) q = live(b + i);
            if (q->type == 'p' && k == "hold") { auto const & v = as<ConvexPolygon>(*q).getVertices(); Hash h; for (auto const & p : v) put(h, p); held.push_back({idx(q), q->gen, &v, {}, h.h, 1}); return; }
            if (q->type != 'u' && q->type != 'i') return;
            Region const & o = as<CompoundRegion>(*q).getOperand(x & 1);
            if (k == "hold") { if (held.size() < 8) held.push_back({idx(q), q->gen, &o, o.encode(), value(o), 0}); }
            else { u64 v = value(o); RegionPtr r = sut([&] { return o.clone(); }); if (value(*r) != v) run->fail("copy-differs", "a clone of an operand differs from it"); if (idx(q) == a % SLOTS || true) set(a, std::move(r)); }
        }
        else if (k == "parts") {
            auto v = sut([&] { return Region::getRegions(*s->r); });
            Hash h;
            u64 n = v.size();
            if (s->type != 'u' && s->type != 'i') { if (n != 1 || value(*v[0]) != s->val) run->fail("copy-differs", "decomposing a simple region does not return it"); }
            if (x & 2) drop(idx(s));      // the parts outlive the whole
            std::vector<u64> vals;
            for (auto & r : v) vals.push_back(value(*r));
            for (u64 i = 0; i < n && i < 3; ++i) set(a + i, std::move(v[i]));
            (void)vals;
            sut([&] { v.clear(); v.shrink_to_fit(); });
        }
        else if (k == "enc") { Bytes e = sut([&] { return s->r->encode(); }); E[a % BYTES] = e; EW[a % BYTES] = s->bytes; if (e != s->bytes) run->fail("value-changed", "an encoding changed"); }
        else if (k == "dec") {
            Bytes & e = E[b % BYTES];
            if (e.empty()) return;
            RegionPtr r = sut([&] { return Region::decode(e.data(), e.size()); });
            set(a, std::move(r));
            // The decoded region must not depend on the bytes it came from.
            if (x & 1) { std::fill(e.begin(), e.end(), 0xEE); sut([&] { e.clear(); e.shrink_to_fit(); }); EW[b % BYTES].clear(); }
        }
        else if (k == "bound") {
            if (s->type == 'u' || s->type == 'i' || s->type) {
                RegionPtr r;
                try { r = sut([&]() -> RegionPtr { if (x & 1) return RegionPtr(new Box(s->r->getBoundingBox())); return RegionPtr(new Circle(s->r->getBoundingCircle())); }); } catch (std::bad_alloc const &) { throw; } catch (std::exception const &) { return; }
                set(a, std::move(r));
            }
        }
        else if (k == "val") {
            Val & v = V[a % VALS];
            v = Val();
            if (s->type == 'b' && (x & 1)) { v.nai.reset(new NormalizedAngleInterval(as<Box>(*s).getLon())); v.kind = 0; }
            else if (s->type == 'b') { v.ai.reset(new AngleInterval(as<Box>(*s).getLat())); v.kind = 1; }
            else if (s->type == 'p' && (x & 1)) { v.vs.reset(new std::vector<UnitVector3d>(as<ConvexPolygon>(*s).getVertices())); v.kind = 2; }
            else if (s->type == 'e' && (x & 1)) { v.mat.reset(new Matrix3d(as<Ellipse>(*s).getTransformMatrix())); v.kind = 3; }
            else try { Box3d b3 = sut([&] { return s->r->getBoundingBox3d(); }); if (x & 2) { v.b3.reset(new Box3d(b3)); v.kind = 4; } else { v.iv.reset(new Interval1d(b3.y())); v.kind = 5; } } catch (std::bad_alloc const &) { throw; } catch (std::exception const &) { return; }
            v.want = v.now();
        }
        else if (k == "envelope") {
            SetSlot & t = T[a % SETS];
            try {
                RangeSet q = sut([&] { switch (x % 3) { case 0: return HtmPixelization(3).envelope(*s->r, 16); case 1: return Q3cPixelization(2).interior(*s->r); default: return Mq3cPixelization(3).envelope(*s->r); } });
                sut([&] { t.s.reset(new RangeSet(q)); });
                t.want = list(q); t.moved = false;
            } catch (std::bad_alloc const &) { throw; } catch (std::exception const &) {}
        }
        else if (k == "pixel") {
            RegionPtr r = sut([&]() -> RegionPtr { switch (x % 3) { case 0: return HtmPixelization(2).pixel(8 * 16 + x % 128); case 1: return Q3cPixelization(2).pixel(x % 96); default: { Mq3cPixelization m(2); return m.pixel(10 * 16 + x % 96); } } });
            set(a, std::move(r));
        }
        else if (k == "oom") {
            Slot * t = live(c);
            env::armFailure(1 + x % 8, 0);
            try {
                sut([&] { switch ((x >> 8) % 4) { case 0: s->r->clone(); break; case 1: { UnionRegion u(*s->r, *t->r); break; } case 2: Region::getRegions(*s->r); break; default: { IntersectionRegion i(UnionRegion(*t->r, *s->r), *s->r); } } });
                if (env::disarm()) run->count("fault.allocation_failed");
            } catch (std::bad_alloc const &) { env::disarm(); run->count("fault.allocation_failed"); }
        }
    }

    void execute(Plan const & plan, Run & r) override {
        run = &r;
        { // warm-up of lazily initialised statics
            Slot w; w.r.reset(new sg::Circle(sg::UnitVector3d(1, 2, 3), sg::Angle(0.3))); note(w); S[0].r = std::move(w.r); note(S[0]); deep(S[0], "warm-up"); S[0].r.reset();
            sut([] { sg::Ellipse e(sg::UnitVector3d(1, 0, 0), sg::Angle(0.1), sg::Angle(0.2), sg::Angle(0)); e.getBoundingBox(); sg::HtmPixelization(1).envelope(e); sg::Q3cPixelization(1).envelope(e); sg::Mq3cPixelization(1).envelope(e); });
        }
        for (auto const & op : plan.ops) if (op.name == "reuse") env::setRecycle(true);
        u64 live0 = env::liveBlocks();
        u64 n = 0;
        for (auto const & op : plan.ops) {
            if (op.name == "reuse") { run->count("fault.address_reuse_forced"); continue; }
            step(op);
            verify(op.name.c_str());
            if (Slot * s = live(n++)) if (n % 4 == 0 || op.name == "mut" || op.name == "assign" || op.name == "massign") deep(*s, op.name.c_str());
            if (op.name == "assign" || op.name == "massign" || op.name == "mut") for (auto & s : S) if (s.r && !s.moved) deep(s, op.name.c_str());
            Hash st; for (auto & s : S) st.u(s.r ? s.type + 256 * s.moved : 0);
            r.state(st.h);
            for (auto & s : S) if (s.r && !s.moved) r.log.u(s.val);
            r.nontrivial = r.nontrivial || n > 4;
        }
        for (auto & s : S) if (s.r && !s.moved) deep(s, "the whole history");
        held.clear();
        // Release in an order that depends on the plan.
        for (u64 i = 0; i < SLOTS; ++i) { drop((i * 7 + plan.ops.size()) % SLOTS); verify("releasing other regions"); }
        sut([&] { for (auto & t : T) t.s.reset(); for (auto & e : E) { e.clear(); e.shrink_to_fit(); } for (auto & v : V) v = Val(); });
        if (env::liveBlocks() != live0) r.fail("leak", "%lld blocks (%lld bytes more) are still allocated after every object was released", (long long)(env::liveBlocks() - live0), (long long)env::liveBytes());
        run->count("probe.histories");
    }
};

WorldInfo info = {"C09", [] { return std::unique_ptr<World>(new Owner); },
    "a run is a history of 8-120 creations, copies, moves, assignments, compositions, decompositions, in-place changes (a quarter with aliased arguments), releases and failing copies over 10 regions, 4 range sets, 6 plain values and held references, all re-verified after every step; non-trivial: at least 5 steps ran",
    "all region classes, compounds, intervals, boxes, RangeSet, pixelizations, with AddressSanitizer",
    "allocator (tracks blocks, fails on command)", "distinct vectors of live region types", 4000, 120000, nullptr};
RegisterWorld reg(&info);

} // namespace
