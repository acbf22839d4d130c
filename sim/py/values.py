"""Generators, exact observations and query answers of the package's values."""
import math
import random

import lsst.sphgeom as s

A, NA, U, V = s.Angle, s.NormalizedAngle, s.UnitVector3d, s.Vector3d
INF = float("inf")
TOP = 2 ** 64 - 1


def num(r):
    """A double, often a special one."""
    k = r.randrange(12)
    if k == 0:
        return 0.0
    if k == 1:
        return -0.0
    if k == 2:
        return r.choice([math.pi, -math.pi, 2 * math.pi, math.pi / 2, -math.pi / 2, math.pi / 4])
    if k == 3:
        return r.choice([5e-324, -5e-324, 1e-300, 1e-17, 1e300])
    if k == 4:
        return float(r.randrange(-5, 6))
    return r.uniform(-4, 4)


def small(r):
    return r.choice([0.0, 1e-12, 1e-6, 0.01, 0.1, 0.3, 1.0, 1.5, math.pi / 2, 3.0, math.pi]) if r.randrange(2) else r.uniform(0, 1.2)


def unit(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([U.X(), U.Y(), U.Z(), -U.X(), -U.Y(), -U.Z()])
    if k == 1:
        return U(A(r.choice([0.0, math.pi, 2 * math.pi, math.pi / 2])), A(r.choice([0.0, math.pi / 2, -math.pi / 2, 1e-9])))
    return U(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1) or 0.5)


def lonlat(r):
    return s.LonLat.fromRadians(r.choice([0.0, math.pi, r.uniform(0, 6.28)]), r.choice([0.0, math.pi / 2, -math.pi / 2, r.uniform(-1.57, 1.57)]))


def normalized(r):
    return NA(r.choice([0.0, math.pi, 5e-324, 2 * math.pi - 1e-15, r.uniform(0, 6.28), r.uniform(-20, 20)]))


def interval(r):
    k = r.randrange(6)
    if k == 0:
        return s.Interval1d.empty()
    if k == 1:
        return s.Interval1d.full()
    return s.Interval1d(num(r), num(r))


def angle_interval(r):
    k = r.randrange(6)
    if k == 0:
        return s.AngleInterval.empty()
    if k == 1:
        return s.AngleInterval.full()
    return s.AngleInterval(A(num(r)), A(num(r)))


def nangle_interval(r):
    k = r.randrange(7)
    if k == 0:
        return s.NormalizedAngleInterval.empty()
    if k == 1:
        return s.NormalizedAngleInterval.full()
    if k == 2:
        return s.NormalizedAngleInterval(normalized(r))
    return s.NormalizedAngleInterval(normalized(r), normalized(r))


def box3d(r):
    k = r.randrange(6)
    if k == 0:
        return s.Box3d.empty()
    if k == 1:
        return s.Box3d.full()
    return s.Box3d(interval(r), interval(r), interval(r))


def matrix(r):
    return s.Matrix3d(*[num(r) for _ in range(9)])


def box(r):
    k = r.randrange(8)
    if k == 0:
        return s.Box.empty()
    if k == 1:
        return s.Box.full()
    if k == 2:
        return s.Box(lonlat(r))
    if k == 3:
        return s.Box(lonlat(r), A(small(r)), A(small(r)))
    return s.Box(lonlat(r), lonlat(r))


def circle(r):
    k = r.randrange(8)
    if k == 0:
        return s.Circle.empty()
    if k == 1:
        return s.Circle.full()
    if k == 2:
        return s.Circle(unit(r))
    if k == 3:
        return s.Circle(unit(r), r.uniform(0, 4))
    return s.Circle(unit(r), A(small(r)))


def ellipse(r):
    k = r.randrange(8)
    if k == 0:
        return s.Ellipse.empty()
    if k == 1:
        return s.Ellipse.full()
    if k == 2:
        return s.Ellipse(circle(r))
    a, b = r.uniform(0.01, 1.5), r.uniform(0.01, 1.5)
    return s.Ellipse(unit(r), A(a), A(b), A(num(r)))


def ring(r, n):
    c, w, a = unit(r), r.uniform(0.3, 1.3), A(2 * math.pi / n)
    p = c.rotatedAround(U.orthogonalTo(c), A(w))
    return [U(p.rotatedAround(c, A(i * a.asRadians()))) for i in range(n)]


def large(r):
    return r.choice([20, 33, 64, 86, 100, 129, 171, 256, 300])


def polygon(r):
    if not r.randrange(25):
        return s.ConvexPolygon(ring(r, large(r)))
    for _ in range(50):
        c, w = unit(r), r.choice([1e-6, 0.01, 0.3, 1.0])
        pts = [U(c.x() + w * r.uniform(-1, 1), c.y() + w * r.uniform(-1, 1), c.z() + w * r.uniform(-1, 1)) for _ in range(r.choice([3, 3, 4, 6, 12]))]
        try:
            return s.ConvexPolygon(pts)
        except ValueError:
            continue
    return s.ConvexPolygon([U.X(), U.Y(), U.Z()])


def region(r, depth=2):
    if depth == 2 and not r.randrange(25):
        x = region(r, 0)
        for _ in range(r.choice([3, 5, 9, 17, 33])):
            x = r.choice([s.UnionRegion, s.IntersectionRegion])(*r.choice([lambda: (x, region(r, 0)), lambda: (region(r, 0), x)])())
        return x
    k = r.randrange(6 if depth else 4)
    if k < 4:
        return (box, circle, ellipse, polygon)[k](r)
    return (s.UnionRegion, s.IntersectionRegion)[k - 4](region(r, depth - 1), region(r, depth - 1))


def union(r):
    if not r.randrange(20):
        return s.UnionRegion(region(r), region(r, 0))
    return s.UnionRegion(region(r, 1), region(r, 1))


def intersection(r):
    if not r.randrange(20):
        return s.IntersectionRegion(region(r), region(r, 0))
    return s.IntersectionRegion(region(r, 1), region(r, 1))


class SubBox(s.Box):
    """A class derived in Python."""


class SubPolygon(s.ConvexPolygon):
    """Another one."""


def u64(r):
    return r.choice([0, 1, 2, 2 ** 32, 2 ** 63, 2 ** 63 - 1, TOP - 1, TOP, r.randrange(2 ** 64), r.randrange(50), r.randrange(50), r.randrange(50)])


def rangeset(r):
    k = r.randrange(8)
    if k == 0:
        return s.RangeSet()
    if k == 1:
        return ~s.RangeSet()
    x = s.RangeSet()
    if not r.randrange(20):
        a, step = u64(r), r.choice([2, 5, 1000, 2 ** 40])
        for _ in range(large(r)):
            x.insert(a)
            a = (a + step) % TOP
        return x
    for _ in range(r.randrange(1, 7)):
        a = u64(r)
        x.insert(a, min(a + r.randrange(1, 9), TOP))
    return ~x if k == 2 else x


def chunker(r):
    return s.Chunker(r.randrange(1, 40), r.randrange(1, 8))


KINDS = {
    "angle": lambda r: A(num(r)), "normalized": normalized, "lonlat": lonlat, "vector": lambda r: V(num(r), num(r), num(r)), "unit": unit,
    "matrix": matrix, "interval": interval, "angleinterval": angle_interval, "nangleinterval": nangle_interval, "box3d": box3d,
    "box": box, "circle": circle, "ellipse": ellipse, "polygon": polygon, "subbox": lambda r: SubBox(box(r)), "subpolygon": lambda r: SubPolygon(polygon(r)),
    "union": union, "intersection": intersection,
    "rangeset": rangeset, "chunker": chunker, "htm": lambda r: s.HtmPixelization(r.randrange(0, 20)), "q3c": lambda r: s.Q3cPixelization(r.randrange(0, 20)),
    "mq3c": lambda r: s.Mq3cPixelization(r.randrange(0, 20)), "healpix": lambda r: s.HealpixPixelization(r.randrange(0, 12)),
}
NAMES = list(KINDS)
REGIONS = ["box", "circle", "ellipse", "polygon", "union", "intersection"]
PIXELIZATIONS = (s.HtmPixelization, s.Q3cPixelization, s.Mq3cPixelization, s.HealpixPixelization)
INTERVALS = (s.Interval1d, s.AngleInterval, s.NormalizedAngleInterval)
LIBRARY = (A, NA, s.LonLat, V, U, s.Matrix3d, s.Interval1d, s.AngleInterval, s.NormalizedAngleInterval, s.Box3d, s.Region, s.RangeSet, s.Chunker) + PIXELIZATIONS
NO_EQ = (s.UnionRegion, s.IntersectionRegion)


def make(kind, seed):
    return KINDS[NAMES[kind % len(NAMES)]](random.Random(seed))


def hx(x):
    if isinstance(x, float):
        return x.hex()
    return hx(x.asRadians())


def look(o):
    """The exact value of an object, as nested tuples of text."""
    t = type(o)
    n = t.__name__
    if o is None or t in (bool, int, str):
        return repr(o)
    if t is bytes:
        return "bytes:" + o.hex()
    if t is float:
        return o.hex()
    if t in (A, NA):
        return (n, hx(o))
    if t is s.LonLat:
        return (n, hx(o.getLon()), hx(o.getLat()))
    if t in (V, U):
        return (n, hx(o[0]), hx(o[1]), hx(o[2]))
    if t is s.Matrix3d:
        return (n,) + tuple(hx(o[i, j]) for i in range(3) for j in range(3))
    if t in INTERVALS:
        return (n, hx(o.getA()), hx(o.getB()))
    if t is s.Box3d:
        return (n, look(o.x()), look(o.y()), look(o.z()))
    if isinstance(o, s.Region):
        return (n, o.encode().hex())
    if t is s.RangeSet:
        return (n, repr(o.ranges()))
    if t is s.Chunker:
        return (n, o.numStripes, o.numSubStripesPerStripe)
    if t in PIXELIZATIONS:
        return (n, o.getLevel())
    if t in (list, tuple):
        return (n,) + tuple(look(x) for x in o)
    if t is dict:
        return (n,) + tuple((look(k), look(v)) for k, v in o.items())
    if hasattr(o, "dtype"):
        return (n, str(o.dtype), repr(o.tolist()))
    return (n, "?")


_r = random.Random(7)
PROBES_U = [U.X(), -U.X(), U.Y(), U.Z(), -U.Z()] + [unit(_r) for _ in range(6)]
PROBES_R = [s.Circle(U.X(), A(0.5)), s.Circle.full(), s.Box.fromDegrees(10, -20, 60, 30), s.ConvexPolygon([U.X(), U.Y(), U.Z()]), s.Ellipse(U.Y(), A(0.4), A(0.2), A(1.0))]
PROBES_S = [s.RangeSet(), ~s.RangeSet(), s.RangeSet([(3, 9), (20, 40)]), s.RangeSet(2 ** 63, 2 ** 63 + 5)]


def ask(f):
    try:
        return look(f())
    except Exception as e:
        return type(e).__name__


def answers(o, thorough=True):
    """What the object answers to a fixed set of questions."""
    t = type(o)
    r = [look(o), repr(o), str(o)]
    if isinstance(o, s.Region):
        r += [o.contains(p) for p in PROBES_U]
        r.append(ask(lambda: o.contains([p.x() for p in PROBES_U], [p.y() for p in PROBES_U], [p.z() for p in PROBES_U])))
        if thorough:
            r += [o.relate(q) for q in PROBES_R] + [q.relate(o) for q in PROBES_R]
            r += [ask(o.getBoundingBox), ask(o.getBoundingBox3d), ask(o.getBoundingCircle), ask(o.clone), ask(lambda: s.Region.getRegions(o))]
            for m in ("isEmpty", "isFull", "getArea", "getCenter", "getCentroid", "getVertices", "getOpeningAngle", "getLon", "getLat", "getAlpha", "getBeta", "getGamma", "getF1", "getF2", "getTransformMatrix", "complemented", "to_ivoa_pos"):
                if hasattr(o, m):
                    r.append(m + repr(ask(getattr(o, m))))
    elif t is s.RangeSet:
        r += [len(o), o.size(), o.empty(), o.full(), o.cardinality(), o.isValid(), ask(o.complemented)]
        r += [ask(lambda q=q: (o.contains(q), o.intersects(q), o.isWithin(q), o.isDisjointFrom(q), (o & q), (o | q), (o - q), (o ^ q))) for q in PROBES_S]
        r += [o.contains(i) for i in (0, 3, 40, 2 ** 63, TOP)]
    elif t in PIXELIZATIONS:
        r += [ask(o.universe), o.nside if t is s.HealpixPixelization else 0]
        for p in PROBES_U[:6]:
            i = o.index(p)
            r += [int(i), o.toString(int(i)), ask(lambda: o.pixel(int(i)))]
        if o.getLevel() <= (2 if t is s.HealpixPixelization else 6):
            r += [ask(lambda q=q: o.envelope(q)) for q in PROBES_R[:3]] + [ask(lambda q=q: o.interior(q)) for q in PROBES_R[:3]]
    elif t is s.Chunker:
        r += [ask(lambda q=q: o.getChunksIntersecting(q)) for q in PROBES_R[:3]]
        c = o.getAllChunks()
        r += [len(c), ask(lambda: o.getAllSubChunks(c[-1])), o.getStripe(c[-1]), ask(lambda: o.getChunkBoundingBox(o.getStripe(c[-1]), 0))]
        r += [ask(lambda: o.getSubChunksIntersecting(PROBES_R[2]))] if thorough and o.numStripes < 20 else []
    elif t in INTERVALS:
        x = o.getA()
        r += [o.isEmpty(), ask(o.getCenter), ask(o.getSize), ask(lambda: o.contains(x)), ask(lambda: o.relate(o)), ask(lambda: o.expandedTo(x)), ask(lambda: o.dilatedBy(A(0.25) if t is not s.Interval1d else 0.25))]
    elif t is s.Box3d:
        r += [o.isEmpty(), o.isFull(), ask(o.getCenter), ask(o.getWidth), ask(lambda: o.contains(V(0.5, 0.5, 0.5))), ask(lambda: o.dilatedBy(1.0)), ask(lambda: o.relate(s.Box3d.aroundUnitSphere()))]
    elif t in (A, NA):
        r += [o.asDegrees(), o.isNan(), ask(lambda: -o), ask(lambda: o + A(1.0)), ask(lambda: o * 3.0), ask(lambda: o < A(1.0))]
    elif t in (V, U):
        r += [ask(lambda: o.dot(U.X())), ask(lambda: o.cross(U.Y())), ask(lambda: -o), ask(lambda: o.rotatedAround(U.Z(), A(0.5))), ask(lambda: s.LonLat(o)), len(o)]
    elif t is s.Matrix3d:
        r += [ask(o.transpose), ask(o.getNorm), ask(lambda: o * V(1, 2, 3)), ask(lambda: o.getRow(1)), ask(lambda: o.getColumn(2)), ask(lambda: o * o)]
    elif t is s.LonLat:
        r += [ask(lambda: o[0]), ask(lambda: o[1]), ask(lambda: tuple(o)), ask(lambda: U(o))]
    return repr(r)
