// Catalogue of read-only calls on shared objects, used by several worlds
// (memory exhaustion, threads, purity). Every entry hashes its complete result.
#pragma once
#include "lib.h"
#include <algorithm>
#include <array>
#include "lsst/sphgeom/BigInteger.h"
#include <limits>

namespace simlib {

struct Ctx {
    std::vector<RegionPtr> regions;
    std::vector<Bytes> bytes;                 // encodings of the regions (exact size)
    std::vector<std::unique_ptr<sg::RangeSet>> sets;
    std::vector<std::unique_ptr<sg::Pixelization>> pix;
    std::vector<int> pixKind, pixLevel;
    std::vector<std::unique_ptr<sg::Chunker>> chunkers;
    std::vector<sg::UnitVector3d> pts;
    std::vector<double> nums;
};

struct A {     // arguments of a call, resolved against the context
    Ctx const & c;
    std::vector<u64> const & a;
    u64 n(size_t i) const { return i < a.size() ? a[i] : 0; }
    sg::Region const & R(size_t i) const { return *c.regions[n(i) % c.regions.size()]; }
    template <typename T> T const * as(size_t i) const {
        for (size_t k = 0; k < c.regions.size(); ++k) if (auto p = dynamic_cast<T const *>(c.regions[(n(i) + k) % c.regions.size()].get())) return p;
        return nullptr;
    }
    Bytes const & B(size_t i) const { return c.bytes[n(i) % c.bytes.size()]; }
    sg::RangeSet const & S(size_t i) const { return *c.sets[n(i) % c.sets.size()]; }
    size_t pi(size_t i) const { return n(i) % c.pix.size(); }
    sg::Pixelization const & X(size_t i) const { return *c.pix[pi(i)]; }
    sg::Chunker const & K(size_t i) const { return *c.chunkers[n(i) % c.chunkers.size()]; }
    sg::UnitVector3d P(size_t i) const { return c.pts[n(i) % c.pts.size()]; }
    double d(size_t i) const { return c.nums[n(i) % c.nums.size()]; }
    sg::Angle ang(size_t i) const { return sg::Angle(d(i)); }
    sg::NormalizedAngle na(size_t i) const { return sg::NormalizedAngle(d(i)); }
    sg::LonLat ll(size_t i) const { return sg::LonLat(P(i)); }
    sg::AngleInterval ai(size_t i) const { return sg::AngleInterval(ang(i), ang(i + 1)); }
    sg::NormalizedAngleInterval nai(size_t i) const { return sg::NormalizedAngleInterval(na(i), na(i + 1)); }
    sg::Interval1d i1(size_t i) const { return sg::Interval1d(d(i), d(i + 1)); }
    sg::Box box(size_t i) const { return sg::Box(nai(i), sg::AngleInterval(sg::Angle(std::min(d(i), 1.5)), sg::Angle(std::max(d(i + 1), -1.5)))); }
    sg::Box3d box3(size_t i) const { return sg::Box3d(sg::Interval1d(std::min(d(i), d(i + 1)), std::max(d(i), d(i + 1))), i1(i + 1), sg::Interval1d(-0.5, d(i + 2))); }
    sg::Matrix3d mat(size_t i) const { return sg::Matrix3d(d(i), d(i + 1), 0.5, d(i + 2), 1.0, d(i + 1), -0.25, d(i), 2.0); }
};

enum Group { G_REGION = 1, G_PIXEL = 2, G_MISC = 4, G_STREAM = 8 };
struct Call { char const * name; int group; void (*fn)(Hash & h, A const & a); };

inline u64 validPixel(sg::Pixelization const & x, u64 v) {
    sg::RangeSet u = x.universe();
    auto t = *u.begin();
    return std::get<0>(t) + v % (std::get<1>(t) - std::get<0>(t));
}
template <typename T> std::string text(T const & t) { std::ostringstream os; os << t; return os.str(); }

#define CALL(name, group) {name, group, [](Hash & h, A const & a) { using namespace sg; (void)a;
#define END }},
inline std::vector<Call> const & calls() {
    static std::vector<Call> const v = {
        // ---- regions
        CALL("region.contains", G_REGION) for (int i = 1; i < 6; ++i) h.u(a.R(0).contains(a.P(i))); h.u(a.R(0).contains(a.d(6), std::min(1.5, std::max(-1.5, a.d(7))))); END
        CALL("region.contains_xyz", G_REGION) h.u(a.R(0).contains(1.0 + a.d(1), a.d(2), a.d(3))); END
        CALL("region.relate", G_REGION) put(h, a.R(0).relate(a.R(1))); END
        CALL("region.relate_rev", G_REGION) put(h, a.R(1).relate(a.R(0))); END
        CALL("region.bounding_box", G_REGION) put(h, a.R(0).getBoundingBox()); END
        CALL("region.bounding_box3d", G_REGION) put(h, a.R(0).getBoundingBox3d()); END
        CALL("region.bounding_circle", G_REGION) put(h, a.R(0).getBoundingCircle()); END
        CALL("region.encode", G_REGION) h.b(a.R(0).encode()); END
        CALL("region.clone", G_REGION) auto p = a.R(0).clone(); value(h, *p); END
        CALL("region.get_regions", G_REGION) auto v = Region::getRegions(a.R(0)); h.u(v.size()); for (auto const & x : v) value(h, *x); END
        CALL("region.decode", G_REGION) auto const & b = a.B(0); auto p = Region::decode(b.data(), b.size()); value(h, *p); END
        CALL("region.decode_vector", G_REGION) auto const & b = a.B(0); auto p = Region::decode(b); value(h, *p); END
        CALL("compound.decode", G_REGION) auto const & b = a.B(0); auto p = CompoundRegion::decode(b.data(), b.size()); value(h, *p); END
        CALL("polygon.decode", G_REGION) auto const & b = a.B(0); auto p = ConvexPolygon::decode(b); value(h, *p); END
        CALL("union", G_REGION) UnionRegion u(a.R(0), a.R(1)); value(h, u); put(h, u.relate(a.R(2))); put(h, u.getBoundingBox()); put(h, u.getBoundingCircle()); h.b(u.encode()); END
        CALL("intersection", G_REGION) IntersectionRegion u(a.R(0), a.R(1)); value(h, u); put(h, u.relate(a.R(2))); put(h, u.getBoundingBox()); put(h, u.getBoundingBox3d()); h.b(u.encode()); END
        CALL("compound.copy", G_REGION) UnionRegion u(a.R(0), a.R(1)); UnionRegion w(u); IntersectionRegion x(w, u); auto y = x.clone(); value(h, *y); END
        CALL("compound.array", G_REGION) std::array<RegionPtr, 2> o = {a.R(0).clone(), a.R(1).clone()}; UnionRegion u(std::move(o)); value(h, u); END
        CALL("box.queries", G_REGION) Box const * p = a.as<Box>(0); if (p) { Box q = a.box(1); h.u(p->contains(q)); h.u(p->intersects(q)); h.u(p->isWithin(q)); h.u(p->isDisjointFrom(q)); h.u(p->contains(a.ll(3))); h.u(p->intersects(a.ll(4))); put(h, p->relate(a.ll(3))); h.d(p->getArea()); put(h, p->getCenter()); h.u(p->isFull()); } END
        CALL("box.algebra", G_REGION) Box p = a.box(0), q = a.box(2); put(h, p.clippedTo(q)); put(h, p.expandedTo(q)); put(h, p.dilatedBy(a.ang(4))); put(h, p.erodedBy(a.ang(4), a.ang(5))); put(h, p.expandedTo(a.ll(6))); put(h, p.clippedTo(a.ll(6))); h.d(p.getArea()); put(h, Box::halfWidthForCircle(a.ang(3), a.ang(4))); END
        CALL("box.construct", G_REGION) Box p(a.ll(0), a.ll(1)); put(h, p); Box q(a.ll(2), a.ang(3), a.ang(4)); put(h, q); h.u(p == q); put(h, Box::fromDegrees(a.d(5), -10, a.d(6), 20)); END
        CALL("circle.queries", G_REGION) Circle const * p = a.as<Circle>(0); if (p) { Circle q(a.P(1), a.ang(2)); h.u(p->contains(q)); h.u(p->isDisjointFrom(q)); h.u(p->intersects(q)); h.u(p->isWithin(q)); h.u(p->contains(a.P(3))); put(h, p->relate(a.P(3))); h.d(p->getArea()); h.u(*p == q); } END
        CALL("circle.algebra", G_REGION) Circle p(a.P(0), a.ang(1)), q(a.P(2), a.ang(3)); put(h, p.clippedTo(q)); put(h, p.expandedTo(q)); put(h, p.dilatedBy(a.ang(4))); put(h, p.erodedBy(a.ang(5))); put(h, p.complemented()); put(h, p.expandedTo(a.P(6))); put(h, p.clippedTo(a.P(6))); h.d(Circle::squaredChordLengthFor(a.ang(4))); put(h, Circle::openingAngleFor(a.d(5))); END
        CALL("ellipse.queries", G_REGION) Ellipse const * p = a.as<Ellipse>(0); if (p) { put(h, *p); put(h, p->complemented()); h.u(p->isCircle()); h.u(p->isGreatCircle()); h.u(p->isEmpty()); h.u(p->isFull()); for (int i = 1; i < 5; ++i) h.u(p->contains(a.P(i))); } END
        CALL("ellipse.construct", G_REGION) Ellipse e(a.P(0), a.ang(1), a.ang(2), a.ang(3)); put(h, e); put(h, e.getBoundingCircle()); Ellipse f(a.P(0), a.P(4), a.ang(5)); put(h, f); END
        CALL("polygon.queries", G_REGION) ConvexPolygon const * p = a.as<ConvexPolygon>(0); if (p) { put(h, p->getCentroid()); h.u(p->contains(a.R(1))); h.u(p->isDisjointFrom(a.R(1))); h.u(p->intersects(a.R(1))); h.u(p->isWithin(a.R(1))); ConvexPolygon q(*p); h.u(q == *p); put(h, q); } END
        CALL("polygon.hull", G_REGION) std::vector<UnitVector3d> v; for (size_t i = 0; i < 3 + a.n(7) % 20; ++i) v.push_back(a.c.pts[(a.n(0) + i * (1 + a.n(1) % 7)) % a.c.pts.size()]); ConvexPolygon p = ConvexPolygon::convexHull(v); put(h, p); put(h, p.getCentroid()); END
        CALL("polygon.construct", G_REGION) ConvexPolygon p(a.P(0), a.P(1), a.P(2)); put(h, p); ConvexPolygon q(a.P(0), a.P(1), a.P(2), a.P(3)); put(h, q); END
        CALL("polygon.assign", G_REGION) ConvexPolygon const * p = a.as<ConvexPolygon>(0); ConvexPolygon const * q = a.as<ConvexPolygon>(1); if (p && q) { ConvexPolygon r(*p); r = *q; put(h, r); ConvexPolygon s(std::move(r)); r = *p; put(h, r); put(h, s); } END
        CALL("region.decode_as", G_REGION) auto const & b = a.B(0); switch (a.n(1) % 6) { case 0: value(h, *Box::decode(b)); break; case 1: value(h, *Circle::decode(b)); break; case 2: value(h, *Ellipse::decode(b)); break; case 3: value(h, *CompoundRegion::decode(b)); break; case 4: value(h, *UnionRegion::decode(b)); break; default: value(h, *IntersectionRegion::decode(b)); } END
        CALL("region.decode_damaged", G_REGION) std::vector<std::uint8_t> b(a.B(0).begin(), a.B(0).end()); switch (a.n(1) % 6) { case 0: b.resize(a.n(2) % (b.size() + 1)); break; case 1: b.insert(b.end(), 1 + a.n(2) % 30, 0); break; case 2: b[0] = std::uint8_t("bcepuix"[a.n(2) % 7]); break; case 3: b[a.n(2) % b.size()] ^= 1u << (a.n(3) % 8); break; case 4: b[std::min<size_t>(b.size() - 1, 1 + a.n(2) % 8)] = std::uint8_t(a.n(3)); break; default: b.clear(); } b.shrink_to_fit(); if (a.n(4) % 4 == 0) switch (a.n(5) % 7) { case 0: value(h, *Box::decode(b)); break; case 1: value(h, *Circle::decode(b)); break; case 2: value(h, *Ellipse::decode(b)); break; case 3: value(h, *CompoundRegion::decode(b)); break; case 4: value(h, *UnionRegion::decode(b)); break; case 5: value(h, *IntersectionRegion::decode(b)); break; default: value(h, *ConvexPolygon::decode(b)); } value(h, *Region::decode(b)); END
        CALL("box.more", G_REGION) Box const * p = a.as<Box>(0); Box b = p ? *p : a.box(0), q = a.box(1); LonLat x = a.ll(3); h.u(b == x); h.u(b != x); h.u(b != q); h.u(b.isDisjointFrom(x)); h.u(b.isWithin(x)); put(h, b.getHeight()); put(h, b.getWidth()); h.u(b.isEmpty()); put(h, b.relate(q)); put(h, b.erodedBy(a.ang(4))); Box e(b); put(h, e.erodeBy(a.ang(4), a.ang(5))); put(h, e.erodeBy(a.ang(5))); put(h, e.expandTo(q).clipTo(b).dilateBy(a.ang(6))); put(h, Box::empty()); put(h, Box::full()); put(h, Box(x)); h.u(Box::allLatitudes() == AngleInterval(Angle(-0.5 * PI), Angle(0.5 * PI))); put(h, Box::allLongitudes()); put(h, Box::halfWidthForCircle(a.ang(4), Angle(1.4))); put(h, Box::fromRadians(a.d(5), -0.5, a.d(6), 0.25)); put(h, Box(LonLat::fromRadians(1, 0.2), NormalizedAngle(a.d(4)), a.ang(5))); END
        CALL("circle.more", G_REGION) Circle const * p = a.as<Circle>(0); Circle c = p ? *p : Circle(a.P(0), a.ang(1)), q(a.P(2), a.ang(3)); UnitVector3d x = a.P(4); h.u(c != q); h.u(c.isEmpty()); h.u(c.isFull()); h.u(c.isDisjointFrom(x)); h.u(c.intersects(x)); h.u(c.isWithin(x)); Circle e(c); put(h, e.erodeBy(a.ang(5))); put(h, e.clipTo(q)); put(h, e.expandTo(c)); put(h, e.complement()); put(h, e.expandTo(x)); put(h, e.clipTo(x)); put(h, Circle::empty()); put(h, Circle::full()); put(h, Circle(x)); put(h, Circle(x, a.d(5))); END
        CALL("ellipse.more", G_REGION) Ellipse const * p = a.as<Ellipse>(0); Ellipse e = p ? *p : Ellipse(a.P(0), a.ang(1)); Ellipse f(a.P(2), a.ang(3)); h.u(e == f); h.u(e != f); put(h, Ellipse(Circle(a.P(0), a.ang(1)))); put(h, e.complement()); put(h, Ellipse::empty()); put(h, Ellipse::full()); put(h, Ellipse(a.P(0), -a.P(0), a.ang(3))); put(h, Ellipse(a.P(0), a.ang(1), a.ang(1), a.ang(2))); Ellipse g(a.P(0), a.P(1), a.ang(4)); put(h, g); g = f; put(h, g); END
        CALL("polygon.more", G_REGION) ConvexPolygon const * p = a.as<ConvexPolygon>(0); if (p) { auto v = p->getVertices(); std::rotate(v.begin(), v.begin() + a.n(1) % v.size(), v.end()); ConvexPolygon q = ConvexPolygon::convexHull(v); h.u(q == *p); h.u(q != *p); h.u(*p == q); v.pop_back(); if (v.size() >= 3) { ConvexPolygon r = ConvexPolygon::convexHull(v); h.u(r == *p); h.u(*p != r); } ConvexPolygon const * o = a.as<ConvexPolygon>(2); h.u(*p == *o); } END
        CALL("polygon.hull_degenerate", G_REGION) std::vector<UnitVector3d> v; UnitVector3d x = a.P(0), y = a.P(1); switch (a.n(2) % 6) { case 0: v = {x, y}; break; case 1: v = {x, y, -x}; break; case 2: v = {x, x, y, y, x}; break; case 3: v = {x, x, x, x}; break; case 4: v = {x, y, UnitVector3d(x + y), a.P(3), y, x, a.P(3)}; break; default: v = {x, y, -x, -y}; } if (a.n(4) & 1) v.insert(v.begin() + a.n(5) % v.size(), a.P(6)); put(h, ConvexPolygon::convexHull(v)); END
        CALL("region.print", G_STREAM) if (auto p = a.as<Box>(0)) h.s(text(*p)); if (auto p = a.as<Circle>(1)) h.s(text(*p)); if (auto p = a.as<Ellipse>(2)) h.s(text(*p)); if (auto p = a.as<ConvexPolygon>(3)) h.s(text(*p)); END
        // ---- pixelizations and chunkers
        CALL("pixel.envelope", G_PIXEL) put(h, a.X(0).envelope(a.R(1), a.c.pixLevel[a.pi(0)] > 6 ? 1 + a.n(2) % 24 : (a.n(2) % 3 ? 0 : 1 + a.n(3) % 24))); END
        CALL("pixel.interior", G_PIXEL) put(h, a.X(0).interior(a.R(1), a.c.pixLevel[a.pi(0)] > 6 ? 1 + a.n(2) % 24 : (a.n(2) % 3 ? 0 : 1 + a.n(3) % 24))); END
        CALL("pixel.universe", G_PIXEL) put(h, a.X(0).universe()); END
        CALL("pixel.pixel", G_PIXEL) auto p = a.X(0).pixel(validPixel(a.X(0), a.n(1))); value(h, *p); END
        CALL("pixel.pixel_any", G_PIXEL) auto p = a.X(0).pixel(a.n(1)); value(h, *p); END
        CALL("pixel.to_string", G_PIXEL) h.s(a.X(0).toString(validPixel(a.X(0), a.n(1)))); END
        CALL("pixel.to_string_any", G_PIXEL) h.s(a.X(0).toString(a.n(1))); END
        CALL("pixel.index", G_PIXEL) h.u(a.X(0).index(a.P(1))); h.u(a.X(0).index(a.P(2))); END
        CALL("pixel.construct", G_PIXEL) switch (a.n(0) % 3) { case 0: { HtmPixelization x(int(a.n(1) % 27) - 1); h.u(x.getLevel()); put(h, x.universe()); break; } case 1: { Q3cPixelization x(int(a.n(1) % 33) - 1); h.u(x.getLevel()); put(h, x.universe()); break; } default: { Mq3cPixelization x(int(a.n(1) % 33) - 1); h.u(x.getLevel()); put(h, x.universe()); } } END
        CALL("htm.statics", G_PIXEL) HtmPixelization x(int(a.n(0) % 25)); u64 i = validPixel(x, a.n(1)); h.u(HtmPixelization::level(i)); put(h, HtmPixelization::triangle(i)); h.s(HtmPixelization::asString(i)); h.u(HtmPixelization::level(a.n(2))); put(h, HtmPixelization::triangle(a.n(2))); END
        CALL("q3c.quad", G_PIXEL) Q3cPixelization x(int(a.n(0) % 31)); u64 i = validPixel(x, a.n(1)); put(h, x.quad(i)); for (u64 y : x.neighborhood(i)) h.u(y); END
        CALL("mq3c.quad", G_PIXEL) Mq3cPixelization x(int(a.n(0) % 31)); u64 i = validPixel(x, a.n(1)); put(h, Mq3cPixelization::quad(i)); h.u(Mq3cPixelization::level(i)); h.s(Mq3cPixelization::asString(i)); for (u64 y : Mq3cPixelization::neighborhood(i)) h.u(y); END
        CALL("chunker.chunks", G_PIXEL) put(h, a.K(0).getChunksIntersecting(a.R(1))); END
        CALL("chunker.subchunks", G_PIXEL) put(h, a.K(0).getSubChunksIntersecting(a.R(1))); END
        CALL("chunker.all", G_PIXEL) auto v = a.K(0).getAllChunks(); put(h, v); std::int32_t id = v[a.n(1) % v.size()]; put(h, a.K(0).getAllSubChunks(id)); h.u(a.K(0).valid(id)); h.u(a.K(0).valid(std::int32_t(a.n(2) % 100000))); int s = a.K(0).getStripe(id); put(h, a.K(0).getChunkBoundingBox(s, a.K(0).getChunk(id, s))); END
        CALL("chunker.construct", G_PIXEL) Chunker k(1 + int(a.n(0) % 30), 1 + int(a.n(1) % 6)); put(h, k.getAllChunks()); h.u(k == a.K(2)); Chunker l(k); put(h, l.getAllSubChunks(l.getAllChunks()[0])); END
        CALL("q3c.any", G_PIXEL) Q3cPixelization x(int(a.n(0) % 31)); u64 i = a.n(3) & 1 ? a.n(1) : a.n(1) % 8000; for (u64 y : x.neighborhood(i)) h.u(y); put(h, x.quad(i)); END
        CALL("mq3c.any", G_PIXEL) u64 i = a.n(3) & 1 ? a.n(1) : a.n(1) % 8000; for (u64 y : Mq3cPixelization::neighborhood(i)) h.u(y); put(h, Mq3cPixelization::quad(i)); END
        CALL("mq3c.level_any", G_PIXEL) h.u(Mq3cPixelization::level(a.n(0))); h.u(Mq3cPixelization::level(a.n(1) % 8000)); h.s(Mq3cPixelization::asString(a.n(1) % 8000)); h.s(Mq3cPixelization::asString(a.n(0))); END
        CALL("chunker.more", G_PIXEL) auto const & k = a.K(0); h.u(std::uint32_t(k.getNumStripes())); h.u(std::uint32_t(k.getNumSubStripesPerStripe())); h.u(k != a.K(1)); auto v = k.getAllChunks(); std::int32_t id = v[a.n(1) % v.size()]; put(h, k.getSubChunkBoundingBox(std::int32_t(a.n(2) % (k.getNumStripes() * k.getNumSubStripesPerStripe())), std::int32_t(a.n(3) % 3))); put(h, k.getAllSubChunks(id)); END
        CALL("chunker.invalid", G_PIXEL) switch (a.n(0) % 4) { case 0: { Chunker k(0, 3); h.u(std::uint32_t(k.getNumStripes())); break; } case 1: { Chunker k(3, -int(a.n(1) % 5)); h.u(std::uint32_t(k.getNumStripes())); break; } case 2: { Chunker k(1 << 20, 1 << 9); h.u(std::uint32_t(k.getNumStripes())); break; } default: put(h, a.K(1).getChunkBoundingBox(a.K(1).getNumStripes() + std::int32_t(a.n(1) % 9), 0)); } END
        // ---- range sets
        CALL("rangeset.algebra", G_MISC) put(h, a.S(0) & a.S(1)); put(h, a.S(0) | a.S(1)); put(h, a.S(0) - a.S(1)); put(h, a.S(0) ^ a.S(1)); put(h, ~a.S(0)); END
        CALL("rangeset.queries", G_MISC) auto const & s = a.S(0); h.u(s.intersects(a.S(1))); h.u(s.contains(a.S(1))); h.u(s.isWithin(a.S(1))); h.u(s.contains(a.n(2))); h.u(s.intersects(a.n(2), a.n(3))); h.u(s.isWithin(a.n(2), a.n(3))); h.u(s.cardinality()); h.u(s.size()); h.u(s.isValid()); h.u(s == a.S(1)); put(h, s); END
        CALL("rangeset.derive", G_MISC) put(h, a.S(0).simplified(a.n(1) % 66)); put(h, a.S(0).scaled(a.n(2) % 9)); RangeSet t(a.S(0)); t.insert(a.n(3), a.n(4)); t.erase(a.n(5), a.n(6)); put(h, t); END
        CALL("rangeset.more", G_MISC) auto const & s = a.S(0), & t = a.S(1); h.u(s != t); h.u(s.empty()); h.u(s.full()); h.u(s.max_size() > s.size()); h.u(s.intersects(a.n(2))); h.u(s.contains(a.n(2), a.n(3))); h.u(s.isWithin(a.n(2))); h.u(s.isDisjointFrom(t)); h.u(s.isDisjointFrom(a.n(4))); h.u(s.isDisjointFrom(a.n(4), a.n(5))); put(h, s.complemented()); for (auto i = s.beginc(); i != s.endc(); ++i) { h.u(std::get<0>(*i)); h.u(std::get<1>(*i)); } h.u(s.end() - s.begin()); h.u(s.cend() - s.cbegin()); if (s.begin() < s.end()) h.u(std::get<1>(s.begin()[(s.end() - s.begin()) / 2])); put(h, s.intersection(t)); put(h, s.join(t)); put(h, s.difference(t)); put(h, s.symmetricDifference(t)); END
        CALL("rangeset.assign", G_MISC) RangeSet s(a.S(0)); s &= a.S(1); put(h, s); s |= a.S(2); put(h, s); s -= a.S(1); put(h, s); s ^= a.S(0); put(h, s); s -= s; put(h, s); s = a.S(1); s.complement(); s.simplify(std::uint32_t(a.n(3) % 70)); put(h, s); s.scale(a.n(4) % 7); put(h, s); RangeSet w(std::move(s)); put(h, w); s = a.S(0); swap(w, s); put(h, s); s.fill(); put(h, s); s.clear(); put(h, s); put(h, w); END
        CALL("rangeset.construct", G_MISC) put(h, RangeSet(a.n(0))); put(h, RangeSet(a.n(0), a.n(1))); put(h, RangeSet(std::make_tuple(a.n(2), a.n(3)))); put(h, RangeSet({a.n(4), a.n(5), a.n(0)})); std::vector<u64> v; for (u64 i = 0; i < a.n(6) % 30; ++i) v.push_back(a.n(i % 6) % 1000 + i * (a.n(5) % 3)); put(h, RangeSet(v)); put(h, RangeSet(v.begin(), v.end())); RangeSet t; t.insert(std::make_tuple(a.n(1), a.n(2))); t.erase(std::make_tuple(a.n(3), a.n(4))); t.insert(a.n(5)); t.erase(a.n(5)); put(h, t); END
        CALL("rangeset.print", G_STREAM) h.s(text(a.S(0))); END
        // ---- everything else
        CALL("orientation", G_MISC) h.u(orientation(a.P(0), a.P(1), a.P(2)) + 2); h.u(orientationX(a.P(3), a.P(4)) + 2); h.u(orientationY(a.P(3), a.P(4)) + 2); h.u(orientationZ(a.P(3), a.P(4)) + 2); END
        CALL("orientation.exact", G_MISC) h.u(orientationExact(a.P(0), a.P(1), a.P(2)) + 2); h.u(orientationExact(a.P(0), a.P(1), a.P(0)) + 2); h.u(orientation(a.P(0), -a.P(0), a.P(1)) + 2); END
        CALL("orientation.extreme", G_MISC) Vector3d x(1e-160 * (1 + a.d(0)), 1e-150, a.d(1)), y(a.d(2), 1e-155, 1e-140), z(1, a.d(3), 1e-130); h.u(orientationExact(x, y, z) + 2); h.u(orientationExact(x, x, z) + 2); END
        CALL("utils", G_MISC) h.d(getMinSquaredChordLength(a.P(0), a.P(1), a.P(2), a.P(3))); h.d(getMaxSquaredChordLength(a.P(0), a.P(1), a.P(2), a.P(3))); put(h, getMinAngleToCircle(a.ang(4), a.ang(5))); put(h, getMaxAngleToCircle(a.ang(4), a.ang(5))); put(h, getWeightedCentroid(a.P(0), a.P(1), a.P(2))); END
        CALL("vector", G_MISC) Vector3d v = a.P(0) * a.d(1) + a.P(2) / (1 + std::fabs(a.d(3))) - a.P(4); put(h, v); put(h, v.cross(a.P(0))); h.d(v.dot(a.P(0))); h.d(v.getNorm()); put(h, v.cwiseProduct(a.P(5))); put(h, v.rotatedAround(a.P(0), a.ang(6))); Vector3d w(v); h.d(w.normalize()); put(h, w); h.u(w.isNormalized()); END
        CALL("unit_vector", G_MISC) put(h, UnitVector3d::orthogonalTo(a.P(0))); put(h, UnitVector3d::orthogonalTo(a.P(0), a.P(1))); put(h, UnitVector3d::northFrom(a.P(2))); put(h, a.P(0).robustCross(a.P(3))); put(h, UnitVector3d(a.ang(4), a.ang(5))); put(h, UnitVector3d::orthogonalTo(a.na(5))); END
        CALL("lonlat", G_MISC) put(h, a.ll(0)); put(h, LonLat::latitudeOf(a.P(1))); put(h, LonLat::longitudeOf(a.P(1))); put(h, NormalizedAngle(a.ll(0), a.ll(2))); put(h, NormalizedAngle(a.P(0), a.P(2))); put(h, LonLat::fromDegrees(a.d(3), a.d(4))); END
        CALL("angle", G_MISC) put(h, NormalizedAngle::between(a.na(0), a.na(1))); put(h, NormalizedAngle::center(a.na(0), a.na(1))); put(h, a.na(0).getAngleTo(a.na(1))); h.d(sin(a.ang(0))); h.d(tan(a.ang(1))); put(h, Angle::fromDegrees(a.d(2))); END
        CALL("interval", G_MISC) Interval1d p = a.i1(0), q = a.i1(2); put(h, p.clippedTo(q)); put(h, p.expandedTo(q)); put(h, p.dilatedBy(a.d(4))); put(h, p.relate(q)); h.u(p.contains(q)); h.u(p.isWithin(q)); h.u(p.intersects(q)); put(h, p.expandedTo(a.d(5))); END
        CALL("angle_interval", G_MISC) AngleInterval p = a.ai(0), q = a.ai(2); put(h, p.clippedTo(q)); put(h, p.expandedTo(q)); put(h, p.erodedBy(a.ang(4))); put(h, p.relate(q)); h.u(p == q); put(h, p.getCenter()); END
        CALL("normalized_angle_interval", G_MISC) auto p = a.nai(0), q = a.nai(2); put(h, p.clippedTo(q)); put(h, p.expandedTo(q)); put(h, p.dilatedBy(a.ang(4))); put(h, p.erodedBy(a.ang(5))); put(h, p.relate(q)); h.u(p.contains(q)); h.u(p.isWithin(q)); h.u(p.isDisjointFrom(q)); put(h, p.getCenter()); put(h, p.getSize()); put(h, p.expandedTo(a.na(6))); END
        CALL("box3d", G_MISC) Box3d p = a.box3(0), q = a.box3(2); put(h, p.clippedTo(q)); put(h, p.expandedTo(q)); put(h, p.dilatedBy(a.d(4))); put(h, p.relate(q)); h.u(p.contains(q)); h.u(p.isWithin(q)); put(h, p.getCenter()); put(h, p.expandedTo(a.P(5))); END
        CALL("matrix", G_MISC) Matrix3d m = a.mat(0), n = a.mat(3); put(h, m * n); put(h, m.inverse()); put(h, m.transpose()); h.d(m.inner(n)); put(h, m * a.P(0)); put(h, m + n); put(h, m.cwiseProduct(n)); put(h, m.getRow(1)); END
        CALL("bigint", G_MISC) std::uint32_t da[12], db[12], dc[40]; BigInteger x(da, 12), y(db, 12), z(dc, a.n(5) % 4 ? 40 : 1 + a.n(5) % 39); auto out = [&](BigInteger const & b) { h.u(b.getSign() + 2); h.u(b.getSize()); h.u(b.getCapacity()); for (unsigned i = 0; i < b.getSize(); ++i) h.u(b.getDigits()[i]); }; x.setTo(std::int64_t(a.n(0))); y.setTo(a.n(1) >> (a.n(2) % 64)); out(x); out(y); x.multiplyPow2(a.n(3) % 130); out(x); y.multiplyPow2(a.n(4) % 130); z.setToZero(); z = x; z.add(y); out(z); z.subtract(x); out(z); z.multiply(x); out(z); z.multiply(y).negate(); out(z); z.subtract(z); out(z); z.multiply(x); z.multiplyPow2(1); out(z); z = y; z.add(z); out(z); z.multiply(z); out(z); END
        CALL("interval.more", G_MISC) Interval1d p = a.i1(0), q = a.i1(2); double x = a.d(4); h.u(p == x); h.u(p != x); h.u(p == q); h.u(p != q); h.u(p.isEmpty()); h.u(p.isFull()); h.d(p.getSize()); h.d(p.getCenter()); h.u(p.isWithin(x)); h.u(p.isDisjointFrom(x)); h.u(p.isDisjointFrom(q)); h.u(p.contains(x)); h.u(p.intersects(x)); put(h, p.relate(x)); put(h, p.clippedTo(x)); put(h, p.erodedBy(x)); put(h, p.expandTo(q)); put(h, p.expandTo(x)); put(h, p.clipTo(q)); put(h, p.dilateBy(x)); put(h, p.erodeBy(a.d(5))); put(h, p.clipTo(x)); put(h, Interval1d(x)); put(h, Interval1d::empty()); put(h, Interval1d::full()); END
        CALL("angle_interval.more", G_MISC) AngleInterval p = a.ai(0), q = a.ai(2); Angle x = a.ang(4); h.u(p == x); h.u(p != x); h.u(p != q); put(h, p.getSize()); h.u(p.isWithin(x)); h.u(p.isWithin(q)); h.u(p.contains(x)); h.u(p.isDisjointFrom(q)); put(h, p.relate(x)); put(h, p.clippedTo(x)); put(h, p.expandedTo(x)); put(h, p.dilatedBy(x)); put(h, p.clipTo(q).expandTo(x).erodeBy(a.ang(5))); put(h, AngleInterval(x)); put(h, AngleInterval::empty()); put(h, AngleInterval::full()); put(h, AngleInterval::fromDegrees(a.d(5), a.d(6))); put(h, AngleInterval::fromRadians(a.d(5), a.d(6))); END
        CALL("normalized_angle_interval.more", G_MISC) auto p = a.nai(0), q = a.nai(2); NormalizedAngle x = a.na(4); h.u(p == x); h.u(p != x); h.u(p != q); h.u(p == q); h.u(p.isEmpty()); h.u(p.isFull()); h.u(p.wraps()); h.u(p.isWithin(x)); h.u(p.contains(x)); h.u(p.intersects(x)); h.u(p.isDisjointFrom(x)); put(h, p.relate(x)); put(h, p.clippedTo(x)); put(h, p.clipTo(q)); put(h, p.expandTo(x)); put(h, p.expandTo(q)); put(h, p.dilateBy(a.ang(5))); put(h, p.erodeBy(a.ang(6))); put(h, p.clipTo(x)); put(h, NormalizedAngleInterval(a.ang(5))); put(h, NormalizedAngleInterval(a.ang(5), a.ang(6))); put(h, NormalizedAngleInterval(x)); put(h, NormalizedAngleInterval::empty()); put(h, NormalizedAngleInterval::full()); put(h, NormalizedAngleInterval::fromDegrees(a.d(5), a.d(6))); put(h, NormalizedAngleInterval::fromRadians(a.d(5), a.d(6))); auto e = NormalizedAngleInterval::empty(), f = NormalizedAngleInterval::full(); put(h, e.relate(p)); put(h, p.relate(e)); put(h, e.relate(x)); put(h, e.relate(NormalizedAngle::nan())); put(h, p.relate(NormalizedAngle::nan())); h.u(e == NormalizedAngle::nan()); put(h, f.relate(p)); put(h, p.expandedTo(e)); put(h, e.expandedTo(p)); END
        CALL("box3d.more", G_MISC) Box3d p = a.box3(0), q = a.box3(2); Vector3d v = a.P(4) * (1 + a.d(5)); h.u(p == q); h.u(p != q); h.u(p == v); h.u(p != v); put(h, p(0)); put(h, p(2)); h.u(p.isEmpty()); h.u(p.isFull()); h.d(p.getWidth()); h.d(p.getHeight()); h.d(p.getDepth()); h.u(p.contains(v)); h.u(p.contains(a.d(4), a.d(5), a.d(6))); h.u(p.intersects(v)); h.u(p.intersects(q)); h.u(p.isDisjointFrom(v)); h.u(p.isDisjointFrom(q)); h.u(p.isWithin(v)); put(h, p.relate(v)); put(h, p.clippedTo(v)); put(h, p.dilatedBy(a.d(4), a.d(5), a.d(6))); put(h, p.erodedBy(a.d(4))); put(h, p.erodedBy(a.d(4), a.d(5), a.d(6))); put(h, p.expandTo(q)); put(h, p.expandTo(v)); put(h, p.clipTo(q)); put(h, p.dilateBy(a.d(5))); put(h, p.erodeBy(a.d(6))); put(h, p.erodeBy(0.1, 0.0, a.d(6))); put(h, p.clipTo(v)); put(h, Box3d::empty()); put(h, Box3d::full()); put(h, Box3d::aroundUnitSphere()); put(h, Box3d(v)); put(h, Box3d(v, a.P(0))); put(h, Box3d(v, a.d(4), a.d(5), a.d(6))); END
        CALL("matrix.more", G_MISC) Matrix3d m = a.mat(0), n = a.mat(3); put(h, Matrix3d(a.P(0))); put(h, Matrix3d(a.d(0))); put(h, Matrix3d()); put(h, Matrix3d(a.d(4))); h.u(m == n); h.u(m != n); h.d(m.getSquaredNorm()); h.d(m.getNorm()); put(h, m - n); put(h, m.getColumn(2)); put(h, m.getRow(0)); m = n; put(h, m); END
        CALL("vector.more", G_MISC) Vector3d v(a.d(0), a.d(1), a.d(2)), w = a.P(3); v *= a.d(4); put(h, v); v /= 1 + std::fabs(a.d(5)); put(h, v); v -= w; put(h, v); v += a.P(0); put(h, v); h.u(v == w); h.u(v != w); h.d(v.getData()[1]); h.d(v(2)); put(h, -v); h.u(v.isZero()); h.d(v.getSquaredNorm()); Vector3d e(1e-170 * (1 + a.d(5)), 1e-165, 0); h.d(e.normalize()); put(h, e); Vector3d z; h.u(z.isZero()); h.d(z.normalize()); END
        CALL("unit_vector.more", G_MISC) UnitVector3d u = a.P(0), w = a.P(1); h.u(u == w); h.u(u != w); h.d(u.dot(w)); put(h, u.cross(w)); put(h, u + w); put(h, u - w); put(h, u * a.d(2)); put(h, u / 3); put(h, -u); put(h, u.cwiseProduct(w)); h.d(u.getData()[0]); h.d(u(1)); put(h, u.rotatedAround(w, a.ang(3))); put(h, UnitVector3d::X()); put(h, UnitVector3d::Y()); put(h, UnitVector3d::Z()); put(h, UnitVector3d()); put(h, UnitVector3d::fromNormalized(Vector3d(u))); put(h, UnitVector3d(a.ll(2))); put(h, UnitVector3d(Vector3d(a.d(2), a.d(3), a.d(4)))); put(h, UnitVector3d(a.d(5), a.d(6), 1.0)); END
        CALL("lonlat.more", G_MISC) LonLat p = a.ll(0), q = a.ll(1); h.u(p == q); h.u(p != q); put(h, LonLat()); put(h, LonLat(Vector3d(0, 0, a.d(2)))); put(h, LonLat::longitudeOf(Vector3d(0, 0, 0))); double bad = a.n(3) & 1 ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity(); put(h, LonLat(NormalizedAngle::fromRadians(bad), a.ang(4) * 0.1)); put(h, LonLat(a.na(4), Angle(bad * 0))); put(h, LonLat::fromRadians(a.d(5), 0.5 * PI * (1 + 1e-16))); put(h, LonLat::fromDegrees(a.d(5), 90.00000000000001)); put(h, LonLat::fromRadians(a.d(5), a.d(6))); END
        CALL("angle.more", G_MISC) Angle x = a.ang(0), y = a.ang(1); NormalizedAngle n = a.na(2), m = a.na(3); h.u(x == y); h.u(x != y); h.u(x < y); h.u(x > y); h.u(x <= y); h.u(x >= y); put(h, -x); put(h, x + y); put(h, x - y); put(h, 2.5 * x); put(h, x / 3); h.d(x / y); h.d(x.asDegrees()); h.u(x.isNormalized()); h.u(x.isNan()); h.d(cos(x)); put(h, abs(x)); x += y; put(h, x); x -= a.ang(2); put(h, x); x *= a.d(3); put(h, x); x /= 7; put(h, x); h.u(n == y); h.u(n != y); h.u(n < y); h.u(n > y); h.u(n <= y); h.u(n >= y); put(h, -n); put(h, n + y); put(h, n - y); put(h, n * 2); put(h, n / 3); h.d(n / y); h.d(n.asDegrees()); h.u(n.isNan()); put(h, abs(n)); put(h, NormalizedAngle::nan()); put(h, Angle::nan()); put(h, NormalizedAngle::fromDegrees(a.d(4))); put(h, NormalizedAngle::fromRadians(-1e-20)); put(h, NormalizedAngle::fromRadians(-a.d(4) * 1e-18)); put(h, NormalizedAngle(a.ll(5), a.ll(6))); h.u(n == m); put(h, NormalizedAngle::between(n, n)); put(h, n.getAngleTo(n)); END
        CALL("curve", G_MISC) std::uint32_t x = std::uint32_t(a.n(0)), y = std::uint32_t(a.n(1)); u64 z = mortonIndex(x, y); h.u(z); auto t = mortonIndexInverse(z); h.u(std::get<0>(t)); h.u(std::get<1>(t)); int m = 1 + int(a.n(2) % 32); u64 mask = m == 32 ? ~u64(0) : (u64(1) << (2 * m)) - 1; h.u(mortonToHilbert(z & mask, m)); h.u(hilbertToMorton(z & mask, m)); std::uint32_t xm = m == 32 ? ~0u : (1u << m) - 1; u64 k = hilbertIndex(x & xm, y & xm, m); h.u(k); auto u = hilbertIndexInverse(k, m); h.u(std::get<0>(u)); h.u(std::get<1>(u)); h.u(log2(a.n(0) | 1)); h.u(log2(x | 1)); END
        CALL("print.misc", G_STREAM) h.s(text(a.ang(0))); h.s(text(a.na(0))); h.s(text(a.ll(0))); h.s(text(a.P(0))); h.s(text(a.i1(0))); h.s(text(a.ai(0))); h.s(text(a.nai(0))); h.s(text(a.box3(0))); h.s(text(a.mat(0))); END
    };
    return v;
}
#undef CALL
#undef END

// Outcome of one call: its hash, including the kind of exception it threw.
// std::bad_alloc is passed on.
inline u64 invoke(Call const & c, Ctx const & ctx, std::vector<u64> const & args) {
    Hash h;
    A a{ctx, args};
    obs(h, [&](Hash & g) { c.fn(g, a); });
    return h.h;
}

// ---- plans over this catalogue --------------------------------------------------

struct CallPlanOptions { int groups; int minCalls, maxCalls; int maxLevel = 6; };

inline void genContext(sim::Rng & r, sim::Plan & p) {
    sim::GenOptions o;
    o.maxDepth = r.range(0, 3); o.pCompound = r.real(0, 0.6); o.maxHull = 12;
    sim::genSizes(r, o, 120, 0, 12);
    int nr = r.range(2, 6);
    for (int i = 0; i < nr; ++i) p.add("reg", sim::genRegion(r, o));
    int np = r.range(6, 14);
    std::vector<u64> pts, nums;
    sim::V3 c = sim::genDir(r);
    for (int i = 0; i < np; ++i) { Spec s; sim::putV(s, r.chance(0.6) ? sim::around(r, c, r.chance(0.3) ? 1e-8 : 0.7) : sim::genDir(r)); pts.insert(pts.end(), s.begin(), s.end()); }
    p.add("pts", pts);
    for (int i = 0; i < 12; ++i) nums.push_back(bits(r.chance(0.02) ? (r.chance(0.5) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity()) : r.chance(0.5) ? r.real(-1.5, 3) : sim::genLon(r)));
    p.add("nums", nums);
    for (u64 k = 0; k < 3; ++k) p.add("pix", {k, r.range(0, 5)});
    if (r.chance(0.4)) p.add("pix", {r.below(3), r.range(7, 12)});
    p.add("chk", {r.range(1, 24), r.range(1, 5)});
    for (int i = 0; i < 3; ++i) { std::vector<u64> a; int n = r.below(6); for (int k = 0; k < n; ++k) { u64 b = r.below(3) ? r.below(400) : r.next(); a.push_back(b); a.push_back(b + 1 + r.below(50)); } p.add("set", a); }
}
inline void loadContext(sim::Op const & op, Ctx & c) {
    if (op.name == "reg") { RegionPtr r = tryBuild(op.a); if (r) { Bytes e = r->encode(); c.bytes.push_back(Bytes(e.begin(), e.end())); c.regions.push_back(std::move(r)); } }
    else if (op.name == "pts") { for (size_t i = 0; i + 2 < op.a.size(); i += 3) c.pts.push_back(sg::UnitVector3d::fromNormalized(dbl(op.a[i]), dbl(op.a[i + 1]), dbl(op.a[i + 2]))); }
    else if (op.name == "nums") { for (u64 x : op.a) c.nums.push_back(dbl(x)); }
    else if (op.name == "pix") {
        int level = int(op.arg(1) % 20); u64 k = op.arg(0) % 3;
        std::unique_ptr<sg::Pixelization> x;
        sim::sut([&] { if (k == 0) x.reset(new sg::HtmPixelization(level)); else if (k == 1) x.reset(new sg::Q3cPixelization(level)); else x.reset(new sg::Mq3cPixelization(level)); });
        c.pix.push_back(std::move(x)); c.pixKind.push_back(int(k)); c.pixLevel.push_back(level);
    }
    else if (op.name == "chk") c.chunkers.emplace_back(sim::sut([&] { return new sg::Chunker(int(op.arg(0) % 100) + 0 ? int(op.arg(0) % 100) : 1, op.arg(1) % 20 ? int(op.arg(1) % 20) : 1); }));
    else if (op.name == "set") c.sets.emplace_back(sim::sut([&] { auto * s = new sg::RangeSet(); for (size_t i = 0; i + 1 < op.a.size(); i += 2) s->insert(op.a[i], op.a[i + 1]); return s; }));
}
// Fill whatever the minimiser removed with defaults, so that calls stay defined.
inline void completeContext(Ctx & c) {
    if (c.regions.empty()) { Spec s{sim::K_CIRCLE, bits(1.0), bits(0.0), bits(0.0), bits(0.1)}; loadContext({"reg", s}, c); }
    if (c.pts.empty()) c.pts.push_back(sg::UnitVector3d(1, 2, 3));
    if (c.nums.empty()) c.nums.push_back(0.25);
    if (c.pix.empty()) loadContext({"pix", {0, 2}}, c);
    if (c.chunkers.empty()) loadContext({"chk", {6, 2}}, c);
    if (c.sets.empty()) loadContext({"set", {1, 5}}, c);
}
inline bool isContextOp(sim::Op const & op) { return op.name == "reg" || op.name == "pts" || op.name == "nums" || op.name == "pix" || op.name == "chk" || op.name == "set"; }
// Exact value of everything in a context.
inline u64 fingerprint(Ctx const & c) {
    Hash h;
    for (auto const & r : c.regions) value(h, *r);
    for (auto const & b : c.bytes) h.b(b);
    for (auto const & s : c.sets) put(h, *s);
    for (auto const & p : c.pts) put(h, p);
    return h.h;
}
inline u64 callIndex(int groups, u64 x) {
    auto const & v = calls();
    for (u64 k = 0; k < v.size(); ++k) { u64 i = (x + k) % v.size(); if (v[i].group & groups) return i; }
    return 0;
}
inline std::vector<sim::Op> simplerCallOp(sim::Op const & op) {
    std::vector<sim::Op> out;
    if (op.name == "reg") { for (auto & s : sim::simplerSpecs(op.a)) out.push_back({"reg", s}); return out; }
    if (op.name == "pts" || op.name == "nums") return out;
    if (op.name == "set") { if (op.a.size() > 2) { sim::Op t = op; t.a.resize(2); out.push_back(t); } return out; }
    for (size_t i = op.name == "call" || op.name == "tcall" ? 1 : 0; i < op.a.size(); ++i) {
        if (op.a[i] == 0) continue;
        for (u64 v : {u64(0), u64(1), u64(2)}) if (v < op.a[i] && op.a[i] > 8) { sim::Op t = op; t.a[i] = v; out.push_back(t); break; }
    }
    return out;
}

} // namespace simlib
