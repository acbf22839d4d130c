// Everything that touches the library: building regions from specifications and
// observing all their answers. Header-only and free of non-inline state, so that
// it can be compiled against differently configured builds (-Dlsst=... renames
// the library namespace, -Dsimlib=... this one).
#pragma once
#include "core.h"
#include "gen.h"
#include <sstream>
#include <stdexcept>
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/Region.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"

namespace simlib {

namespace sg = lsst::sphgeom;
using sim::u64; using sim::Spec; using sim::Hash; using sim::Bytes; using sim::dbl; using sim::bits;
using RegionPtr = std::unique_ptr<sg::Region>;

struct BadSpec {};

inline sg::UnitVector3d vec(Spec const & s, size_t i) { return sg::UnitVector3d(dbl(s.at(i)), dbl(s.at(i + 1)), dbl(s.at(i + 2))); }

// Build a region through the public constructors. Throws whatever they throw.
// On return, i is the position after the specification.
inline RegionPtr build(Spec const & s, size_t & i) {
    using namespace sg;
    if (!sim::specEnd(s, i)) throw BadSpec();
    size_t b = i + 1;
    auto D = [&](size_t k) { return dbl(s[b + k]); };
    u64 kind = s[i];
    if (kind != sim::K_UNION && kind != sim::K_INTERSECTION) i = sim::specEnd(s, i);
    switch (kind) {
        case sim::K_BOX_IV: return RegionPtr(new Box(NormalizedAngleInterval(NormalizedAngle(D(0)), NormalizedAngle(D(1))), AngleInterval(Angle(D(2)), Angle(D(3)))));
        case sim::K_BOX_EMPTY: return RegionPtr(new Box());
        case sim::K_BOX_FULL: return RegionPtr(new Box(Box::full()));
        case sim::K_BOX_POINT: return RegionPtr(new Box(LonLat::fromRadians(D(0), D(1))));
        case sim::K_BOX_WH: return RegionPtr(new Box(LonLat::fromRadians(D(0), D(1)), Angle(D(2)), Angle(D(3))));
        case sim::K_BOX_DILATED: return RegionPtr(new Box(Box(LonLat::fromRadians(D(0), D(1))).dilatedBy(Angle(D(2)))));
        case sim::K_CIRCLE: return RegionPtr(new Circle(vec(s, b), Angle(D(3))));
        case sim::K_CIRCLE_CL2: return RegionPtr(new Circle(vec(s, b), D(3)));
        case sim::K_CIRCLE_EMPTY: return RegionPtr(new Circle());
        case sim::K_CIRCLE_FULL: return RegionPtr(new Circle(Circle::full()));
        case sim::K_CIRCLE_POINT: return RegionPtr(new Circle(vec(s, b)));
        case sim::K_CIRCLE_COMPL: return RegionPtr(new Circle(Circle(vec(s, b), Angle(D(3))).complemented()));
        case sim::K_CIRCLE_DILATED: return RegionPtr(new Circle(Circle(vec(s, b), Angle(D(3))).dilatedBy(Angle(D(4)))));
        case sim::K_ELL_FOCI: return RegionPtr(new Ellipse(vec(s, b), vec(s, b + 3), Angle(D(6))));
        case sim::K_ELL_CENTER: return RegionPtr(new Ellipse(vec(s, b), Angle(D(3)), Angle(D(4)), Angle(D(5))));
        case sim::K_ELL_EMPTY: return RegionPtr(new Ellipse());
        case sim::K_ELL_FULL: return RegionPtr(new Ellipse(Ellipse::full()));
        case sim::K_ELL_CIRCLE: return RegionPtr(new Ellipse(Circle(vec(s, b), Angle(D(3)))));
        case sim::K_ELL_COMPL: return RegionPtr(new Ellipse(Ellipse(vec(s, b), Angle(D(3)), Angle(D(4)), Angle(D(5))).complemented()));
        case sim::K_POLY3: return RegionPtr(new ConvexPolygon(vec(s, b), vec(s, b + 3), vec(s, b + 6)));
        case sim::K_POLY4: return RegionPtr(new ConvexPolygon(vec(s, b), vec(s, b + 3), vec(s, b + 6), vec(s, b + 9)));
        case sim::K_POLY_HULL: {
            std::vector<UnitVector3d> p;
            for (u64 k = 0; k < s[b]; ++k) p.push_back(vec(s, b + 1 + 3 * k));
            return RegionPtr(new ConvexPolygon(p));
        }
        case sim::K_POLY_RING: {
            std::vector<UnitVector3d> p;
            for (u64 k = 0; k < s[b + 4]; ++k) { sim::V3 v = sim::ringPoint({D(0), D(1), D(2)}, D(3), k, s[b + 4]); p.push_back(UnitVector3d(v.x, v.y, v.z)); }
            return RegionPtr(new ConvexPolygon(p));
        }
        case sim::K_UNION:
        case sim::K_INTERSECTION: {
            size_t j = b;
            RegionPtr x = build(s, j);
            RegionPtr y = build(s, j);
            i = j;
            if (kind == sim::K_UNION) return RegionPtr(new UnionRegion(*x, *y));
            return RegionPtr(new IntersectionRegion(*x, *y));
        }
    }
    throw BadSpec();
}
inline RegionPtr build(Spec const & s) { size_t i = 0; return build(s, i); }
// Build, or a null pointer if the arguments are legitimately rejected.
inline RegionPtr tryBuild(Spec const & s, size_t at = 0) {
    size_t i = at;
    try { return sim::sut([&] { return build(s, i); }); }
    catch (BadSpec const &) { return nullptr; }
    catch (std::bad_alloc const &) { throw; }
    catch (std::exception const &) { return nullptr; }
}

// ---- observation -------------------------------------------------------------

enum Exc { E_NONE = 0, E_BAD_ALLOC, E_INVALID, E_DOMAIN, E_LENGTH, E_RANGE, E_LOGIC, E_RUNTIME, E_OTHER };
inline Exc classify(std::exception const & e) {
    if (dynamic_cast<std::bad_alloc const *>(&e)) return E_BAD_ALLOC;
    if (dynamic_cast<std::invalid_argument const *>(&e)) return E_INVALID;
    if (dynamic_cast<std::domain_error const *>(&e)) return E_DOMAIN;
    if (dynamic_cast<std::length_error const *>(&e)) return E_LENGTH;
    if (dynamic_cast<std::out_of_range const *>(&e)) return E_RANGE;
    if (dynamic_cast<std::logic_error const *>(&e)) return E_LOGIC;
    if (dynamic_cast<std::runtime_error const *>(&e)) return E_RUNTIME;
    return E_OTHER;
}
// Hash of a call's result or of the kind of exception it threw.
template <typename F> void obs(Hash & h, F && f) {
    try { sim::sut([&] { f(h); }); h.u(0x600d); }
    catch (std::bad_alloc const &) { throw; }
    catch (std::exception const & e) { h.u(0xbad0 + classify(e)); }
}

inline void put(Hash & h, sg::Vector3d const & v) { h.d(v.x()); h.d(v.y()); h.d(v.z()); }
inline void put(Hash & h, sg::UnitVector3d const & v) { h.d(v.x()); h.d(v.y()); h.d(v.z()); }
inline void put(Hash & h, sg::Angle a) { h.d(a.asRadians()); }
inline void put(Hash & h, sg::NormalizedAngle a) { h.d(a.asRadians()); }
inline void put(Hash & h, sg::Interval1d const & i) { h.d(i.getA()); h.d(i.getB()); }
inline void put(Hash & h, sg::AngleInterval const & i) { put(h, i.getA()); put(h, i.getB()); }
inline void put(Hash & h, sg::NormalizedAngleInterval const & i) { put(h, i.getA()); put(h, i.getB()); }
inline void put(Hash & h, sg::LonLat const & p) { put(h, p.getLon()); put(h, p.getLat()); }
inline void put(Hash & h, sg::Box const & b) { put(h, b.getLon()); put(h, b.getLat()); }
inline void put(Hash & h, sg::Box3d const & b) { put(h, b.x()); put(h, b.y()); put(h, b.z()); }
inline void put(Hash & h, sg::Circle const & c) { put(h, c.getCenter()); h.d(c.getSquaredChordLength()); put(h, c.getOpeningAngle()); }
inline void put(Hash & h, sg::Matrix3d const & m) { for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) h.d(m(r, c)); }
inline void put(Hash & h, sg::Ellipse const & e) { put(h, e.getTransformMatrix()); put(h, e.getAlpha()); put(h, e.getBeta()); put(h, e.getGamma()); put(h, e.getF1()); put(h, e.getF2()); put(h, e.getCenter()); }
inline void put(Hash & h, sg::ConvexPolygon const & p) { h.u(p.getVertices().size()); for (auto const & v : p.getVertices()) put(h, v); }
inline void put(Hash & h, sg::RangeSet const & s) { h.u(s.size()); for (auto t : s) { h.u(std::get<0>(t)); h.u(std::get<1>(t)); } h.u(s.full()); }
inline void put(Hash & h, sg::Relationship r) { h.u(r.to_ulong()); }
inline void put(Hash & h, std::vector<std::int32_t> const & v) { h.u(v.size()); for (auto x : v) h.u(static_cast<std::uint32_t>(x)); }
inline void put(Hash & h, std::vector<sg::SubChunks> const & v) { h.u(v.size()); for (auto const & x : v) { h.u(static_cast<std::uint32_t>(x.chunkId)); put(h, x.subChunkIds); } }

inline int typeOf(sg::Region const & r) {
    if (dynamic_cast<sg::Box const *>(&r)) return 'b';
    if (dynamic_cast<sg::Circle const *>(&r)) return 'c';
    if (dynamic_cast<sg::Ellipse const *>(&r)) return 'e';
    if (dynamic_cast<sg::ConvexPolygon const *>(&r)) return 'p';
    if (dynamic_cast<sg::UnionRegion const *>(&r)) return 'u';
    if (dynamic_cast<sg::IntersectionRegion const *>(&r)) return 'i';
    return '?';
}

// Exact value of a region: type and all stored fields, recursively, through accessors.
inline void value(Hash & h, sg::Region const & r) {
    h.u(typeOf(r));
    if (auto p = dynamic_cast<sg::Box const *>(&r)) put(h, *p);
    else if (auto p = dynamic_cast<sg::Circle const *>(&r)) put(h, *p);
    else if (auto p = dynamic_cast<sg::Ellipse const *>(&r)) put(h, *p);
    else if (auto p = dynamic_cast<sg::ConvexPolygon const *>(&r)) put(h, *p);
    else if (auto p = dynamic_cast<sg::CompoundRegion const *>(&r)) { value(h, p->getOperand(0)); value(h, p->getOperand(1)); }
}
inline u64 value(sg::Region const & r) { Hash h; value(h, r); return h.h; }

// A fixed panel of probe points and regions.
struct Panel {
    std::vector<sg::UnitVector3d> points;
    std::vector<RegionPtr> regions;
    Panel() {
        using namespace sg;
        for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
            if (x || y || z) points.push_back(UnitVector3d(x, y, z));
        for (int i = 0; i < 24; ++i) points.push_back(UnitVector3d(Angle(0.7 * i), Angle(-1.5 + 0.13 * i)));
        auto pt = [](double lon, double lat) { return UnitVector3d(Angle(lon), Angle(lat)); };
        regions.emplace_back(new Box(NormalizedAngleInterval::fromRadians(0.1, 0.9), AngleInterval::fromRadians(-0.4, 0.5)));
        regions.emplace_back(new Box(NormalizedAngleInterval::fromRadians(5.9, 0.3), AngleInterval::fromRadians(1.0, 1.6)));
        regions.emplace_back(new Circle(pt(0.5, 0.1), Angle(0.3)));
        regions.emplace_back(new Circle(pt(3.0, -1.2), Angle(1.7)));
        regions.emplace_back(new Ellipse(pt(0.4, 0.2), Angle(0.5), Angle(0.25), Angle(0.6)));
        regions.emplace_back(new ConvexPolygon(pt(0.2, -0.1), pt(0.8, 0.0), pt(0.5, 0.6)));
        regions.emplace_back(new ConvexPolygon(pt(2.0, 0.9), pt(3.9, 0.9), pt(5.0, 1.0), pt(0.2, 1.1)));
        regions.emplace_back(new UnionRegion(*regions[0], *regions[3]));
        regions.emplace_back(new IntersectionRegion(*regions[2], *regions[5]));
    }
};

// Points on and around a region derived from its own geometry.
inline std::vector<sg::UnitVector3d> ownPoints(sg::Region const & r) {
    using namespace sg;
    std::vector<UnitVector3d> v;
    auto add = [&](UnitVector3d const & p) { v.push_back(p); };
    if (auto p = dynamic_cast<Box const *>(&r)) {
        if (!p->isEmpty()) for (auto lon : {p->getLon().getA(), p->getLon().getB()}) for (auto lat : {p->getLat().getA(), p->getLat().getB()}) add(UnitVector3d(LonLat(lon, lat)));
    } else if (auto p = dynamic_cast<Circle const *>(&r)) {
        add(p->getCenter()); add(-p->getCenter());
        UnitVector3d n = UnitVector3d::orthogonalTo(p->getCenter());
        double a = p->getOpeningAngle().asRadians();
        for (double k : {0.999, 1.0, 1.001}) add(p->getCenter().rotatedAround(n, Angle(a * k)));
    } else if (auto p = dynamic_cast<Ellipse const *>(&r)) {
        add(p->getCenter()); add(p->getF1()); add(p->getF2());
        UnitVector3d n = UnitVector3d::orthogonalTo(p->getCenter());
        for (double k : {0.5, 0.99, 1.01}) add(p->getCenter().rotatedAround(n, Angle(p->getAlpha().asRadians() * k)));
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
        for (auto const & q : p->getVertices()) add(q);
    } else if (auto p = dynamic_cast<CompoundRegion const *>(&r)) {
        for (int i = 0; i < 2; ++i) for (auto const & q : ownPoints(p->getOperand(i))) if (v.size() < 16) add(q);
    }
    return v;
}

enum ObserveFlags { O_CHEAP = 0, O_RELATE = 1, O_PIXELS = 2, O_ALL = 3 };

// Hash of the answers of a region to (almost) every query of the public API.
inline void observe(Hash & h, sg::Region const & r, Panel const & panel, int flags) {
    using namespace sg;
    h.u(typeOf(r));
    value(h, r);
    for (auto const & p : panel.points) obs(h, [&](Hash & g) { g.u(r.contains(p)); });
    std::vector<UnitVector3d> own;
    obs(h, [&](Hash &) { own = ownPoints(r); });
    // Large regions: fewer points, no pixelizations (the cost of both grows with the size).
    size_t weight = 0;
    obs(h, [&](Hash & g) { auto e = r.encode(); weight = e.size(); g.u(weight); });
    if (weight > 6000) { flags &= ~O_PIXELS; size_t k = own.size() / 40 + 1, n = 0; for (size_t i = 0; i < own.size(); i += k) own[n++] = own[i]; own.erase(own.begin() + n, own.end()); }
    for (auto const & p : own) obs(h, [&](Hash & g) { g.u(r.contains(p)); });
    obs(h, [&](Hash & g) { g.u(r.contains(0.5, 0.25)); g.u(r.contains(1.0, 2.0, 3.0)); });
    obs(h, [&](Hash & g) { put(g, r.getBoundingBox()); });
    obs(h, [&](Hash & g) { put(g, r.getBoundingBox3d()); });
    obs(h, [&](Hash & g) { put(g, r.getBoundingCircle()); });
    obs(h, [&](Hash & g) { g.b(r.encode()); });
    obs(h, [&](Hash & g) { auto c = r.clone(); value(g, *c); });
    obs(h, [&](Hash & g) { auto v = Region::getRegions(r); g.u(v.size()); for (auto const & x : v) value(g, *x); });
    if (auto p = dynamic_cast<Box const *>(&r)) {
        obs(h, [&](Hash & g) { g.u(p->isEmpty()); g.u(p->isFull()); g.d(p->getArea()); put(g, p->getWidth()); put(g, p->getHeight()); put(g, p->getCenter()); });
        obs(h, [&](Hash & g) { put(g, p->dilatedBy(Angle(0.1))); put(g, p->erodedBy(Angle(0.1), Angle(0.05))); put(g, p->expandedTo(LonLat::fromRadians(1, 0.5))); put(g, p->clippedTo(Box::full())); });
        obs(h, [&](Hash & g) { std::ostringstream os; os << *p; g.s(os.str()); });
    } else if (auto p = dynamic_cast<Circle const *>(&r)) {
        obs(h, [&](Hash & g) { g.u(p->isEmpty()); g.u(p->isFull()); g.d(p->getArea()); put(g, p->complemented()); put(g, p->dilatedBy(Angle(0.1))); put(g, p->expandedTo(UnitVector3d(1, 2, 3))); put(g, p->clippedTo(Circle(UnitVector3d(1, 2, 3), Angle(1)))); });
        obs(h, [&](Hash & g) { std::ostringstream os; os << *p; g.s(os.str()); });
    } else if (auto p = dynamic_cast<Ellipse const *>(&r)) {
        obs(h, [&](Hash & g) { g.u(p->isEmpty()); g.u(p->isFull()); g.u(p->isCircle()); g.u(p->isGreatCircle()); put(g, p->complemented()); });
        obs(h, [&](Hash & g) { std::ostringstream os; os << *p; g.s(os.str()); });
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
        obs(h, [&](Hash & g) { put(g, p->getCentroid()); });
        obs(h, [&](Hash & g) { std::ostringstream os; os << *p; g.s(os.str()); });
    }
    if (flags & O_RELATE)
        for (auto const & q : panel.regions) {
            obs(h, [&](Hash & g) { put(g, r.relate(*q)); });
            obs(h, [&](Hash & g) { put(g, q->relate(r)); });
        }
    if (flags & O_PIXELS) {
        obs(h, [&](Hash & g) { HtmPixelization x(3); put(g, x.envelope(r)); put(g, x.interior(r)); put(g, x.envelope(r, 5)); });
        obs(h, [&](Hash & g) { Q3cPixelization x(3); put(g, x.envelope(r)); put(g, x.interior(r)); });
        obs(h, [&](Hash & g) { Mq3cPixelization x(3); put(g, x.envelope(r)); put(g, x.interior(r)); });
        obs(h, [&](Hash & g) { Chunker c(12, 3); put(g, c.getChunksIntersecting(r)); put(g, c.getSubChunksIntersecting(r)); });
    }
}

inline bool equalRegions(sg::Region const & a, sg::Region const & b) {
    using namespace sg;
    if (typeOf(a) != typeOf(b)) return false;
    if (auto p = dynamic_cast<Box const *>(&a)) return *p == dynamic_cast<Box const &>(b) && !(*p != dynamic_cast<Box const &>(b));
    if (auto p = dynamic_cast<Circle const *>(&a)) return *p == dynamic_cast<Circle const &>(b) && !(*p != dynamic_cast<Circle const &>(b));
    if (auto p = dynamic_cast<Ellipse const *>(&a)) return *p == dynamic_cast<Ellipse const &>(b) && !(*p != dynamic_cast<Ellipse const &>(b));
    if (auto p = dynamic_cast<ConvexPolygon const *>(&a)) return *p == dynamic_cast<ConvexPolygon const &>(b) && !(*p != dynamic_cast<ConvexPolygon const &>(b));
    auto p = dynamic_cast<CompoundRegion const *>(&a), q = dynamic_cast<CompoundRegion const *>(&b);
    return p && q && equalRegions(p->getOperand(0), q->getOperand(0)) && equalRegions(p->getOperand(1), q->getOperand(1));
}

} // namespace simlib
