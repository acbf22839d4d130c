// One node. Compiled once per build variant with -Dlsst=... -Dsimlib=... -DNODE=...
#include "lib.h"
#include "node.h"
#include <map>

using namespace sim;
using namespace simlib;

namespace {

std::map<u64, RegionPtr> held;
u64 nextHandle = 1;
u64 hold(RegionPtr r) { held[nextHandle] = std::move(r); return nextHandle++; }

u64 make(Spec const & s) { RegionPtr r = tryBuild(s); return r ? hold(std::move(r)) : 0; }

template <typename T> RegionPtr via(std::uint8_t const * p, size_t n) { return RegionPtr(T::decode(p, n).release()); }
u64 decode(std::uint8_t const * p, size_t n, int how) {
    try {
        RegionPtr r;
        if (how == 0 || !n) r = sg::Region::decode(p, n);
        else if (how == 1) r = sg::Region::decode(std::vector<std::uint8_t>(p, p + n));
        else switch (p[0]) {
            case 'b': r = via<sg::Box>(p, n); break;
            case 'c': r = via<sg::Circle>(p, n); break;
            case 'e': r = via<sg::Ellipse>(p, n); break;
            case 'p': r = via<sg::ConvexPolygon>(p, n); break;
            case 'u': r = how == 2 ? via<sg::UnionRegion>(p, n) : via<sg::CompoundRegion>(p, n); break;
            case 'i': r = how == 2 ? via<sg::IntersectionRegion>(p, n) : via<sg::CompoundRegion>(p, n); break;
            default: return 0;
        }
        return r ? hold(std::move(r)) : 0;
    } catch (std::exception const &) { return 0; }
}
u64 compose(u64 a, u64 b, int kind) {
    sg::Region const & x = *held.at(a); sg::Region const & y = *held.at(b);
    if (kind & 1) return hold(RegionPtr(new sg::UnionRegion(x, y)));
    return hold(RegionPtr(new sg::IntersectionRegion(x, y)));
}
void view(u64 h, View & v) {
    static Panel const panel;
    sg::Region const & r = *held.at(h);
    v.type = typeOf(r); v.value = value(r); v.bytes = r.encode();
    Hash g; observe(g, r, panel, O_ALL); v.answers = g.h;
}

// Independent reader of the documented format, compared with the accessors.
double rd(std::uint8_t const * p) { u64 u = 0; for (int i = 7; i >= 0; --i) u = u << 8 | p[i]; return dbl(u); }
u64 rl(std::uint8_t const * p) { u64 u = 0; for (int i = 7; i >= 0; --i) u = u << 8 | p[i]; return u; }
bool same(double a, double b) { return bits(a) == bits(b) || (a != a && b != b); }
bool match(sg::Region const & r, std::uint8_t const * p, size_t n, std::string & why) {
    auto bad = [&](char const * w) { why = w; return false; };
    if (!n) return bad("empty string");
    switch (typeOf(r)) {
        case 'b': {
            auto const & b = dynamic_cast<sg::Box const &>(r);
            if (p[0] != 'b') return bad("the type code of a box is not 'b'");
            if (n != 33) return bad("an encoded box is not 33 bytes");
            double const v[4] = {b.getLon().getA().asRadians(), b.getLon().getB().asRadians(), b.getLat().getA().asRadians(), b.getLat().getB().asRadians()};
            for (int i = 0; i < 4; ++i) if (!same(rd(p + 1 + 8 * i), v[i])) return bad("a box field on the wire is not the little-endian double of its bound");
            return true;
        }
        case 'c': {
            auto const & c = dynamic_cast<sg::Circle const &>(r);
            if (p[0] != 'c') return bad("the type code of a circle is not 'c'");
            if (n != 41) return bad("an encoded circle is not 41 bytes");
            double const v[5] = {c.getCenter().x(), c.getCenter().y(), c.getCenter().z(), c.getSquaredChordLength(), c.getOpeningAngle().asRadians()};
            for (int i = 0; i < 5; ++i) if (!same(rd(p + 1 + 8 * i), v[i])) return bad("a circle field on the wire is not the little-endian double of its value");
            return true;
        }
        case 'e': {
            auto const & e = dynamic_cast<sg::Ellipse const &>(r);
            if (p[0] != 'e') return bad("the type code of an ellipse is not 'e'");
            if (n != 113) return bad("an encoded ellipse is not 113 bytes");
            for (int i = 0; i < 9; ++i) if (!same(rd(p + 1 + 8 * i), e.getTransformMatrix()(i / 3, i % 3))) return bad("an ellipse matrix element on the wire is not the little-endian double of its value");
            double a = rd(p + 73), b = rd(p + 81), g = rd(p + 89), ta = rd(p + 97), tb = rd(p + 105);
            if (!same((sg::Angle(0.5 * sg::PI) + sg::Angle(a)).asRadians(), e.getAlpha().asRadians())) return bad("the first semi-axis on the wire does not match");
            if (!same((sg::Angle(0.5 * sg::PI) + sg::Angle(b)).asRadians(), e.getBeta().asRadians())) return bad("the second semi-axis on the wire does not match");
            if (!same(g, e.getGamma().asRadians())) return bad("the half distance of the foci on the wire does not match");
            auto tanOk = [](double t, double x) { double w = std::fabs(std::tan(x)); return std::fabs(x) > 1.6 || w > 1e6 || std::fabs(t - w) <= 1e-9 * (1 + w); };
            if (!tanOk(ta, a) || !tanOk(tb, b)) return bad("a tangent on the wire does not match its semi-axis");
            return true;
        }
        case 'p': {
            auto const & v = dynamic_cast<sg::ConvexPolygon const &>(r).getVertices();
            if (p[0] != 'p') return bad("the type code of a polygon is not 'p'");
            if (n != 1 + 24 * v.size()) return bad("an encoded polygon is not 1 + 24 n bytes");
            for (size_t i = 0; i < 3 * v.size(); ++i) if (!same(rd(p + 1 + 8 * i), v[i / 3](int(i % 3)))) return bad("a vertex on the wire is not the little-endian double of its coordinate");
            return true;
        }
        case 'u': case 'i': {
            if (p[0] != typeOf(r)) return bad("the type code of a compound is wrong");
            auto const & c = dynamic_cast<sg::CompoundRegion const &>(r);
            size_t at = 1;
            for (int i = 0; i < 2; ++i) {
                if (n - at < 8) return bad("a compound ends before a length");
                u64 m = rl(p + at);
                at += 8;
                if (m > n - at) return bad("a 64-bit little-endian operand length is wrong");
                if (!match(c.getOperand(i), p + at, m, why)) return false;
                at += m;
            }
            if (at != n) return bad("a compound has extra bytes");
            return true;
        }
    }
    return bad("unknown type");
}
bool wireMatches(u64 h, std::uint8_t const * p, size_t n, std::string & why) { return match(*held.at(h), p, n, why); }
bool equalToSpec(u64 h, Spec const & s) { RegionPtr r = tryBuild(s); return r && equalRegions(*r, *held.at(h)) && equalRegions(*held.at(h), *r); }
void forget(u64 h) { if (h) held.erase(h); else held.clear(); }

} // namespace

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
extern sim::NodeApi const CAT(node_, NODE);
sim::NodeApi const CAT(node_, NODE) = {NODE_NAME, make, decode, compose, view, wireMatches, equalToSpec, forget};
