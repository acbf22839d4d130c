// Generation of region specifications. A specification is a flat list of
// 64-bit tokens in prefix form; no library code is involved in making one.
#pragma once
#include "core.h"
#include <cmath>

namespace sim {

enum Kind : u64 {
    K_BOX_IV = 0, K_BOX_EMPTY, K_BOX_FULL, K_BOX_POINT, K_BOX_WH, K_BOX_DILATED,
    K_CIRCLE = 10, K_CIRCLE_CL2, K_CIRCLE_EMPTY, K_CIRCLE_FULL, K_CIRCLE_POINT, K_CIRCLE_COMPL, K_CIRCLE_DILATED,
    K_ELL_FOCI = 20, K_ELL_CENTER, K_ELL_EMPTY, K_ELL_FULL, K_ELL_CIRCLE, K_ELL_COMPL,
    K_POLY3 = 30, K_POLY4, K_POLY_HULL, K_POLY_RING,
    K_UNION = 40, K_INTERSECTION,
};

using Spec = std::vector<u64>;

struct GenOptions {
    int maxDepth = 3;
    double pCompound = 0.25;
    int maxHull = 24;
    double pRing = 0;         // polygons with many vertices
    u64 maxRing = 0;
    double pChain = 0;        // deep one-sided nesting
    int maxChain = 0;
};

struct V3 { double x, y, z; };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator*(V3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline V3 unit(V3 a) { double n = std::sqrt(dot(a, a)); return n > 0 ? a * (1 / n) : V3{1, 0, 0}; }

constexpr double PI_ = 3.14159265358979323846;

inline V3 genDir(Rng & r) {
    switch (r.below(8)) {
        case 0: { static V3 const ax[6] = {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}; return ax[r.below(6)]; }
        case 1: { V3 v{double(int(r.below(3)) - 1), double(int(r.below(3)) - 1), double(int(r.below(3)) - 1)};
                  return (v.x || v.y || v.z) ? unit(v) : V3{0, 0, 1}; }
        case 2: { double e = std::pow(10.0, -double(r.range(1, 12))); V3 v = {r.real(-e, e), r.real(-e, e), r.chance(0.5) ? 1.0 : -1.0}; return unit(v); }
        case 3: { double lon = 0.5 * PI_ * r.below(5) + (r.chance(0.5) ? r.real(-1e-9, 1e-9) : 0.0), lat = r.real(-1.5, 1.5);
                  return {std::cos(lon) * std::cos(lat), std::sin(lon) * std::cos(lat), std::sin(lat)}; }
        default: { V3 v{r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)}; return unit(v); }
    }
}
inline double genRadius(Rng & r) {
    switch (r.below(8)) {
        case 0: return std::pow(10.0, -r.real(3, 12));
        case 1: return 0.5 * PI_;
        case 2: return r.real(1.4, 1.7);
        case 3: return r.real(1.7, PI_);
        case 4: return 0.0;
        default: return r.real(0.001, 1.2);
    }
}
inline double genLon(Rng & r) {
    switch (r.below(6)) {
        case 0: return 0.0;
        case 1: return 0.5 * PI_ * r.below(4);
        case 2: return std::nextafter(2 * PI_, 0.0);
        case 3: return r.real(0, 1e-9);
        default: return r.real(0, 2 * PI_);
    }
}
inline double genLat(Rng & r) {
    switch (r.below(6)) {
        case 0: return 0.5 * PI_;
        case 1: return -0.5 * PI_;
        case 2: return 0.0;
        default: return r.real(-0.5 * PI_, 0.5 * PI_);
    }
}
inline void putV(Spec & s, V3 v) { s.push_back(bits(v.x)); s.push_back(bits(v.y)); s.push_back(bits(v.z)); }
inline void putD(Spec & s, double d) { s.push_back(bits(d)); }

inline V3 around(Rng & r, V3 c, double rad) {
    V3 a = std::fabs(c.z) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0};
    V3 e = unit(cross(a, c)), n = cross(c, e);
    double t = r.real(0, 2 * PI_), q = rad * std::sqrt(r.real());
    return unit(c * std::cos(q) + (e * std::cos(t) + n * std::sin(t)) * std::sin(q));
}

// The i-th of n points at angular distance rad from c.
inline V3 ringPoint(V3 c, double rad, u64 i, u64 n) {
    V3 a = std::fabs(c.z) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0};
    V3 e = unit(cross(a, c)), m = cross(c, e);
    double t = 2 * PI_ * double(i) / double(n);
    return unit(c * std::cos(rad) + (e * std::cos(t) + m * std::sin(t)) * std::sin(rad));
}
// Sometimes include large values: polygons of many vertices, deep nesting.
template <typename R> void genSizes(R & r, GenOptions & o, u64 moderate, u64 large, int chain) {
    if (r.chance(0.15)) { o.maxRing = moderate; o.pRing = 0.4; }
    else if (large && r.chance(0.04)) { o.maxRing = large; o.pRing = 0.3; }
    if (chain && r.chance(0.12)) { o.maxChain = chain; o.pChain = 0.3; }
}
inline u64 genRingSize(Rng & r, u64 max) {
    static u64 const edges[] = {16, 32, 64, 85, 100, 128, 170, 256, 341, 500, 512, 1000, 1024, 1365, 2048, 2730};
    // 64 KB of encoded vertices, or of one vector of them, when that much is allowed.
    static u64 const top[] = {1365, 2048, 2730, 2731, 4096};
    if (max >= 2800 && r.chance(0.4)) return std::min<u64>(max, r.pick(top) - 2 + r.below(5));
    u64 n = r.chance(0.6) ? r.pick(edges) - 2 + r.below(5) : u64(std::exp(r.real(3, 8)));
    while (n > max) n /= 2;
    return n < 3 ? 3 : n;
}
inline void genRegion(Rng & r, GenOptions const & o, Spec & s, int depth = 0) {
    if (depth == 0 && o.maxChain && r.chance(o.pChain)) {
        GenOptions leaf = o;
        leaf.maxDepth = 0; leaf.maxChain = 0; leaf.pRing = 0;
        u64 n = 1 + u64(std::exp(r.real(0, std::log(double(o.maxChain))))), side = r.next(), op = r.next();
        // Prefix form: open n compounds, some with the simple operand first, close them in reverse.
        std::vector<Spec> after;
        for (u64 i = 0; i < n; ++i) {
            s.push_back(op >> (i % 61) & 1 ? K_UNION : K_INTERSECTION);
            Spec t; genRegion(r, leaf, t, 1);
            if (side >> (i % 59) & 1) s.insert(s.end(), t.begin(), t.end()); else after.push_back(t);
        }
        genRegion(r, leaf, s, 1);
        for (size_t i = after.size(); i > 0; --i) s.insert(s.end(), after[i - 1].begin(), after[i - 1].end());
        return;
    }
    if (depth < o.maxDepth && r.chance(depth == 0 ? o.pCompound : o.pCompound * 0.9)) {
        s.push_back(r.chance(0.5) ? K_UNION : K_INTERSECTION);
        genRegion(r, o, s, depth + 1);
        genRegion(r, o, s, depth + 1);
        return;
    }
    switch (r.below(4)) {
        case 0: {
            u64 k = r.below(12);
            if (k == 0) { s.push_back(K_BOX_EMPTY); return; }
            if (k == 1) { s.push_back(K_BOX_FULL); return; }
            if (k == 2) { s.push_back(K_BOX_POINT); putD(s, genLon(r)); putD(s, genLat(r)); return; }
            if (k == 3 || k == 4) { s.push_back(k == 3 ? K_BOX_WH : K_BOX_DILATED); putD(s, genLon(r)); putD(s, genLat(r)); putD(s, std::fabs(genRadius(r))); putD(s, genRadius(r)); return; }
            double lat1 = genLat(r), lat2 = genLat(r);
            if (lat1 > lat2 && !r.chance(0.03)) std::swap(lat1, lat2);
            s.push_back(K_BOX_IV); putD(s, genLon(r)); putD(s, genLon(r)); putD(s, lat1); putD(s, lat2);
            return;
        }
        case 1: {
            u64 k = r.below(12);
            if (k == 0) { s.push_back(K_CIRCLE_EMPTY); return; }
            if (k == 1) { s.push_back(K_CIRCLE_FULL); return; }
            if (k == 2) { s.push_back(K_CIRCLE_POINT); putV(s, genDir(r)); return; }
            if (k == 3) { s.push_back(K_CIRCLE_CL2); putV(s, genDir(r)); putD(s, r.chance(0.2) ? r.real(-1, 5) : r.real(0, 4)); return; }
            if (k == 4) { s.push_back(K_CIRCLE_COMPL); putV(s, genDir(r)); putD(s, genRadius(r)); return; }
            if (k == 5) { s.push_back(K_CIRCLE_DILATED); putV(s, genDir(r)); putD(s, genRadius(r)); putD(s, r.real(-0.5, 0.5)); return; }
            s.push_back(K_CIRCLE); putV(s, genDir(r)); putD(s, genRadius(r));
            return;
        }
        case 2: {
            u64 k = r.below(12);
            if (k == 0) { s.push_back(K_ELL_EMPTY); return; }
            if (k == 1) { s.push_back(K_ELL_FULL); return; }
            if (k == 2) { s.push_back(K_ELL_CIRCLE); putV(s, genDir(r)); putD(s, genRadius(r)); return; }
            if (k <= 6) {
                V3 c = genDir(r);
                double g = r.chance(0.3) ? 0.0 : r.real(0, 0.6);
                s.push_back(K_ELL_FOCI); putV(s, c); putV(s, g == 0.0 ? c : around(r, c, g)); putD(s, r.chance(0.1) ? 0.5 * PI_ : g + r.real(0.0, 0.9));
                return;
            }
            double b = r.chance(0.15) ? 0.5 * PI_ : r.real(0.01, 1.4), a = r.chance(0.15) ? b : r.real(0.01, 1.4);
            s.push_back(k == 7 ? K_ELL_COMPL : K_ELL_CENTER); putV(s, genDir(r)); putD(s, a); putD(s, b); putD(s, r.real(0, PI_));
            return;
        }
        default: {
            V3 c = genDir(r);
            double rad = r.chance(0.2) ? std::pow(10.0, -r.real(2, 8)) : r.real(0.05, 1.2);
            if (o.maxRing && r.chance(o.pRing)) {
                s.push_back(K_POLY_RING); putV(s, c); putD(s, r.real(0.3, 1.3)); s.push_back(genRingSize(r, o.maxRing));
                return;
            }
            u64 k = r.below(6);
            if (k <= 2) {
                V3 p[3] = {around(r, c, rad), around(r, c, rad), around(r, c, rad)};
                if (r.chance(0.15)) { p[0] = {1, 0, 0}; p[1] = {0, 1, 0}; p[2] = {0, 0, 1}; }
                double det = dot(p[0], cross(p[1], p[2]));
                if (det < 0) std::swap(p[1], p[2]);
                s.push_back(K_POLY3); for (auto & v : p) putV(s, v);
                return;
            }
            if (k == 3) {
                // Quadrilateral: 4 points at increasing position angle on a cap boundary.
                V3 a = std::fabs(c.z) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0};
                V3 e = unit(cross(a, c)), n = cross(c, e);
                double t = r.real(0, 6);
                s.push_back(K_POLY4);
                for (int i = 0; i < 4; ++i) { putV(s, unit(c * std::cos(rad) + (e * std::cos(t) + n * std::sin(t)) * std::sin(rad))); t += r.real(0.4, 1.5); }
                return;
            }
            u64 n = r.range(3, o.maxHull);
            s.push_back(K_POLY_HULL); s.push_back(n);
            for (u64 i = 0; i < n; ++i) putV(s, r.chance(0.1) ? c : around(r, c, rad));
            return;
        }
    }
}
inline Spec genRegion(Rng & r, GenOptions const & o = {}) { Spec s; genRegion(r, o, s, 0); return s; }
// A record of more than 64 KB, usually as an operand, so that its length
// needs more than two bytes of a length prefix.
inline Spec genBulk(Rng & r) {
    static u64 const sizes[] = {2730, 2731, 2732, 2800, 3500, 5462};
    GenOptions o;
    Spec s;
    int sides = 0;
    for (int i = r.range(r.chance(0.85), 3); i > 0; --i) { s.push_back(r.chance(0.5) ? K_UNION : K_INTERSECTION); Spec t = genRegion(r, o); if (r.chance(0.5)) s.insert(s.end(), t.begin(), t.end()); else ++sides; }
    s.push_back(K_POLY_RING); putV(s, genDir(r)); putD(s, r.real(0.3, 1.3)); s.push_back(r.pick(sizes));
    while (sides-- > 0) genRegion(r, o, s, 1);
    return s;
}

// Length of the (sub)specification starting at i; 0 if malformed.
inline size_t specEnd(Spec const & s, size_t i) {
    if (i >= s.size()) return 0;
    static int const fixed[50] = {4,0,0,2,4,4,-1,-1,-1,-1, 4,4,0,0,3,4,5,-1,-1,-1, 7,6,0,0,4,6,-1,-1,-1,-1, 9,12,-2,5,-1,-1,-1,-1,-1,-1, -3,-3};
    u64 k = s[i];
    if (k >= 42 || fixed[k] == -1) return 0;
    size_t e;
    if (fixed[k] >= 0) e = i + 1 + fixed[k];
    else if (fixed[k] == -2) { if (i + 1 >= s.size() || s[i + 1] > 4096) return 0; e = i + 2 + 3 * s[i + 1]; }
    else { size_t m = specEnd(s, i + 1); if (!m) return 0; e = specEnd(s, m); if (!e) return 0; }
    if (e > s.size() || (k == K_POLY_RING && s[i + 5] > 4096)) return 0;
    return e;
}

// A different region of the same shape (and, mostly, of the same size in memory).
inline Spec twisted(Spec const & s) {
    Spec t = s;
    auto rot = [&](size_t i) { u64 x = t[i]; t[i] = t[i + 1]; t[i + 1] = t[i + 2]; t[i + 2] = x; };
    auto walk = [&](auto && self, size_t i) -> void {
        size_t e = specEnd(s, i);
        if (!e) return;
        switch (s[i]) {
            case K_UNION: case K_INTERSECTION: { size_t m = specEnd(s, i + 1); self(self, i + 1); self(self, m); return; }
            case K_BOX_IV: std::swap(t[i + 1], t[i + 2]); { double a = dbl(t[i + 3]), b = dbl(t[i + 4]); t[i + 3] = bits(0.9 * a); t[i + 4] = bits(0.8 * b + 0.1 * a); } return;
            case K_BOX_POINT: case K_BOX_WH: case K_BOX_DILATED: t[i + 1] = bits(6.2 - dbl(t[i + 1])); t[i + 2] = bits(0.5 * dbl(t[i + 2])); return;
            case K_CIRCLE: case K_CIRCLE_CL2: case K_CIRCLE_COMPL: case K_CIRCLE_DILATED: case K_ELL_CIRCLE: case K_POLY_RING: rot(i + 1); t[i + 4] = bits(0.75 * dbl(t[i + 4]) + 0.1); return;
            case K_CIRCLE_POINT: rot(i + 1); return;
            case K_ELL_FOCI: rot(i + 1); rot(i + 4); t[i + 7] = bits(dbl(t[i + 7]) + 0.01); return;
            case K_ELL_CENTER: case K_ELL_COMPL: rot(i + 1); std::swap(t[i + 4], t[i + 5]); return;
            case K_POLY3: case K_POLY4: for (size_t k = i + 1; k + 2 < e; k += 3) rot(k); return;
            case K_POLY_HULL: for (size_t k = i + 2; k + 2 < e; k += 3) rot(k); return;
        }
    };
    walk(walk, 0);
    return t;
}

// Simpler specifications for the minimiser.
inline std::vector<Spec> simplerSpecs(Spec const & s) {
    std::vector<Spec> out;
    if (s.empty()) return out;
    if (s[0] == K_UNION || s[0] == K_INTERSECTION) {
        size_t m = specEnd(s, 1), e = m ? specEnd(s, m) : 0;
        if (e) { out.push_back(Spec(s.begin() + 1, s.begin() + m)); out.push_back(Spec(s.begin() + m, s.begin() + e));
            for (auto & a : simplerSpecs(Spec(s.begin() + 1, s.begin() + m))) { Spec t{s[0]}; t.insert(t.end(), a.begin(), a.end()); t.insert(t.end(), s.begin() + m, s.begin() + e); out.push_back(t); }
            for (auto & a : simplerSpecs(Spec(s.begin() + m, s.begin() + e))) { Spec t{s.begin(), s.begin() + m}; t.insert(t.end(), a.begin(), a.end()); out.push_back(t); }
        }
        return out;
    }
    Spec const circle{K_CIRCLE, bits(1.0), bits(0.0), bits(0.0), bits(0.1)};
    Spec const box{K_BOX_IV, bits(0.1), bits(0.2), bits(0.1), bits(0.2)};
    Spec const tri{K_POLY3, bits(1.0), bits(0.0), bits(0.0), bits(0.0), bits(1.0), bits(0.0), bits(0.0), bits(0.0), bits(1.0)};
    Spec const ell{K_ELL_CENTER, bits(1.0), bits(0.0), bits(0.0), bits(0.2), bits(0.1), bits(0.0)};
    // Strictly decreasing order of complexity, to terminate: only propose forms
    // that compare simpler than the current one.
    auto rank = [&](Spec const & t) { return t == circle ? u64(0) : t == box ? u64(1) : t == tri ? u64(2) : t == ell ? u64(3) : u64(4 + t.size() + (t[0] == K_POLY_RING && t.size() == 6 ? t[5] * 4 : 0)); };
    for (auto const & t : {circle, box, tri, ell}) if (rank(t) < rank(s)) out.push_back(t);
    if (s[0] == K_POLY_RING) for (u64 n : {u64(3), s[5] / 2, s[5] - 1}) if (s[5] > 3 && n >= 3 && n < s[5]) { Spec t = s; t[5] = n; out.push_back(t); }
    if (s[0] == K_POLY_HULL && s[1] > 3) { Spec t = s; t[1] = 3; t.resize(2 + 9); out.push_back(t); t = s; t[1] -= 1; t.resize(t.size() - 3); out.push_back(t); }
    return out;
}

} // namespace sim
