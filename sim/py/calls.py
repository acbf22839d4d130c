"""Library calls fed with iterables, sequences, numbers and strings that user code
controls, for the worlds that make such code misbehave."""
import itertools
import random

import numpy as np
import lsst.sphgeom as s
import values as v

TOP = 2 ** 64


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class Ctl:
    """Counts the points at which user code runs inside one call; misbehaves at one of them."""

    def __init__(self):
        self.at, self.hits, self.fired, self.act, self.kinds = -1, 0, False, None, []
        self.sticky, self.culprit = False, None
        self.containers = []            # lists that the call reads and user code can reach

    def hit(self, kind, who=None):
        """Called at every point; `sticky`: the object that misbehaved once does it again."""
        i = self.hits
        self.hits += 1
        self.kinds.append(kind)
        if i == self.at or (self.sticky and self.culprit is not None and self.culprit is who):
            self.fired, self.culprit = True, who
            return self.act(kind)
        return None


class Idx:
    def __init__(self, x, ctl):
        self.x, self.ctl = x, ctl

    def __index__(self):
        b = self.ctl.hit("index", self)
        return self.x if b is None else b[0]

    def __repr__(self):
        return "Idx(%r)" % self.x


class Flt:
    def __init__(self, x, ctl):
        self.x, self.ctl = x, ctl

    def __float__(self):
        b = self.ctl.hit("float", self)
        return self.x if b is None else b[0]

    def __repr__(self):
        return "Flt(%r)" % self.x


class It:
    def __init__(self, items, ctl):
        self.items, self.ctl = items, ctl

    def __iter__(self):
        b = self.ctl.hit("iter", self)
        return ItNext(self.items, self.ctl) if b is None else b[0]


class ItNext:
    def __init__(self, items, ctl):
        self.items, self.ctl, self.i = items, ctl, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        b = self.ctl.hit("next", self)
        self.i += 1
        return self.items[self.i - 1] if b is None else b[0]


class Seq:
    """A sequence that is not a list; `lie` is added to its length."""

    def __init__(self, items, ctl, lie=0):
        self.items, self.ctl, self.lie = items, ctl, lie

    def __len__(self):
        b = self.ctl.hit("len", self)
        return max(0, len(self.items) + self.lie) if b is None else b[0]

    def __getitem__(self, i):
        if not 0 <= i < len(self.items):
            raise IndexError(i)
        b = self.ctl.hit("getitem", self)
        return self.items[i] if b is None else b[0]


class Hinted(It):
    def __length_hint__(self):
        b = self.ctl.hit("hint", self)
        return len(self.items) if b is None else b[0]


class ArrayLike:
    def __init__(self, a, ctl):
        self.a, self.ctl = a, ctl

    def __array__(self, dtype=None, copy=None):
        b = self.ctl.hit("array", self)
        return (self.a if dtype is None else self.a.astype(dtype)) if b is None else b[0]


class Text(str):
    ctl = None

    def split(self, *a):
        b = self.ctl.hit("split")
        return str.split(self, *a) if b is None else b[0]


class FakeUnit:
    def __init__(self, u, ctl):
        self.u, self.ctl = u, ctl

    def _c(self, x):
        b = self.ctl.hit("component", self)
        return x if b is None else b[0]

    def x(self):
        return self._c(self.u.x())

    def y(self):
        return self._c(self.u.y())

    def z(self):
        return self._c(self.u.z())


def generator(items, ctl):
    for x in items:
        b = ctl.hit("yield")
        yield x if b is None else b[0]


def wrap(r, items, ctl):
    """The items behind some kind of iterable."""
    k = r.randrange(9)
    items = list(items)
    ctl.containers.append(items)
    if k == 0:
        return items
    if k == 1:
        return tuple(items)
    if k == 2:
        return It(items, ctl)
    if k == 3:
        return ItNext(items, ctl)
    if k == 4:
        return Seq(items, ctl)
    if k == 5:
        return generator(items, ctl)
    if k == 6:
        return Hinted(items, ctl)
    if k == 7:
        return Seq(items, ctl, r.choice([-1, 1, 3, -len(items)]))
    return itertools.chain.from_iterable([It(items, ctl)])


# ---- reference model of a set of 64-bit integers ------------------------------

class Bad(Exception):
    """The model says that the call must raise."""


def model_insert(iv, a, b):
    if a < b:
        new = [(a, b)]
    elif a == b:
        new = [(0, TOP)]
    else:
        new = [(a, TOP)] + ([(0, b)] if b else [])
    out = []
    for x in sorted(iv + new):
        if out and x[0] <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], x[1]))
        else:
            out.append(x)
    return out


def model_int(x):
    if isinstance(x, Idx):
        x = x.x
    if isinstance(x, (bool, int, np.integer)):
        x = int(x)
        if 0 <= x < TOP:
            return x
    raise Bad()


def model_rangeset(items):
    iv = []
    for x in items:
        n = None
        if isinstance(x, Seq):
            n, get = max(0, len(x.items) + x.lie), x.items
        elif isinstance(x, (list, tuple, bytes)) or (isinstance(x, np.ndarray) and x.ndim):
            n, get = len(x), x
        elif isinstance(x, str):
            raise Bad()
        if n == 2:
            if len(get) < 2:
                raise Bad()
            a, b = model_int(get[0]), model_int(get[1])
        elif isinstance(x, np.ndarray):
            if x.ndim:
                raise Bad()
            a = model_int(x[()])
            b = (a + 1) % TOP
        elif n is not None:
            raise Bad()
        else:
            a = model_int(x)
            b = (a + 1) % TOP
        iv = model_insert(iv, a, b)
    return ("RangeSet", repr([(a, b % TOP) for a, b in iv]))


# ---- the calls -----------------------------------------------------------------
# Each builder gets (r, ctl, pool) and returns (callable, expected look or None, target or None):
# `target` is the existing object that the call is allowed to change when it succeeds.

def integer(r, ctl):
    x = v.u64(r)
    k = r.randrange(5)
    if k == 0:
        return Idx(x, ctl)
    if k == 1:
        return np.uint64(x)
    return x


def real(r, ctl, scale=3.0):
    x = r.uniform(-scale, scale)
    return Flt(x, ctl) if r.randrange(2) else x


def small_int(r, ctl, n):
    x = r.randrange(n)
    return Idx(x, ctl) if r.randrange(3) else x


def c_rangeset(r, ctl, pool):
    items = []
    for _ in range(r.randrange(0, 7) if r.randrange(20) else v.large(r)):
        k = r.randrange(9) if r.randrange(4) else 0
        if k < 4:
            items.append(integer(r, ctl))
        elif k == 4:
            items.append((integer(r, ctl), integer(r, ctl)))
        elif k == 5:
            items.append([integer(r, ctl), integer(r, ctl)])
            ctl.containers.append(items[-1])
        elif k == 6:
            items.append(Seq([integer(r, ctl), integer(r, ctl)], ctl))
        elif k == 7:
            items.append(r.choice([np.array([3, 9]), b"ab", True, np.array(7), np.int64(5)]))
        else:
            items.append(Seq([integer(r, ctl) for _ in range(r.randrange(4))], ctl, r.choice([-1, 1, 0])))
    w = wrap(r, items, ctl)
    try:
        expect = model_rangeset(w.items if type(w) is Seq else items)
    except Bad:
        expect = Bad
    return (lambda: s.RangeSet(w)), expect, None


def c_rangeset_array(r, ctl, pool):
    n = r.randrange(0, 6) if r.randrange(20) else v.large(r)
    if r.randrange(2):
        a = np.array([r.randrange(60) for _ in range(n)], dtype=r.choice([np.int64, np.uint64, np.int32, np.uint8]))
    else:
        a = np.array([[x, x + r.randrange(1, 5)] for x in (r.randrange(60) for _ in range(n))], dtype=np.int64).reshape(n, 2)
        a = a if r.randrange(2) else np.asfortranarray(a)
    expect = model_rangeset(list(a))
    return (lambda: s.RangeSet(a)), expect, None


def c_rangeset_of_rangeset(r, ctl, pool):
    rs = v.rangeset(r)
    e = v.look(rs)
    k = r.randrange(3)
    return (lambda: s.RangeSet([rs.ranges, lambda: iter(rs), lambda: list(rs)][k]())), e, None


def points(r):
    if not r.randrange(20):
        return v.ring(r, v.large(r))
    c = v.unit(r)
    return [v.U(c.x() + r.uniform(-0.5, 0.5), c.y() + r.uniform(-0.5, 0.5), c.z() + r.uniform(-0.5, 0.5)) for _ in range(r.randrange(3, 8))]


def c_polygon(r, ctl, pool):
    w = wrap(r, points(r), ctl)
    f = r.choice([s.ConvexPolygon, s.ConvexPolygon.convexHull])
    return (lambda: f(w)), None, None


def c_contains(r, ctl, pool):
    reg = v.region(r, 1)
    n = r.randrange(1, 6) if r.randrange(20) else r.choice([64, 257, 1000])
    us = [v.unit(r) for _ in range(n)]
    cols = [[u.x() for u in us], [u.y() for u in us], [u.z() for u in us]]
    if r.randrange(3) == 0:
        lls = [s.LonLat(u) for u in us]
        cols = [[a.getLon().asRadians() for a in lls], [a.getLat().asRadians() for a in lls]]

    def arg(col):
        k = r.randrange(8)
        if k == 0:
            return np.array(col)
        if k == 1:
            col = list(col)
            ctl.containers.append(col)
            return col
        if k == 2:
            return tuple(Flt(x, ctl) for x in col)
        if k == 3:
            return Seq(col, ctl)
        if k == 4:
            return ArrayLike(np.array(col), ctl)
        if k == 5:
            b = np.zeros((n, 3))
            b[:, 1] = col
            return b[:, 1]
        if k == 6:
            return np.array(col[::-1])[::-1]
        return np.array(col, dtype=object)
    args = [arg(c) for c in cols]
    expect = ("ndarray", "bool", repr([bool(reg.contains(*[c[i] for c in cols])) for i in range(n)]))
    return (lambda: np.atleast_1d(reg.contains(*args))), expect, None


def c_contains_broadcast(r, ctl, pool):
    reg = v.region(r, 1)
    x, y = np.array([r.uniform(-1, 1) for _ in range(r.randrange(0, 4))]), np.array([r.uniform(-1, 1) for _ in range(r.randrange(1, 4))])
    z = r.uniform(-1, 1) or 0.5
    expect = ("ndarray", "bool", repr([[bool(reg.contains(float(a), float(b), z)) for a in x] for b in y]))
    return (lambda: reg.contains(x[None, :], y[:, None], Flt(z, ctl) if r.randrange(2) else z)), expect if len(x) else None, None


def pick(r, pool, t):
    c = [o for o in pool if type(o) is t]
    return r.choice(c) if c else None


def c_rangeset_mutate(r, ctl, pool):
    rs = pick(r, pool, s.RangeSet)
    if rs is None:
        return None
    m = r.choice(["insert", "erase"])
    args = [integer(r, ctl) for _ in range(r.choice([1, 2]))]
    return (lambda: getattr(rs, m)(*args)), None, rs


def c_rangeset_scale(r, ctl, pool):
    rs = pick(r, pool, s.RangeSet)
    if rs is None:
        return None
    m, x = r.choice([("simplify", 30), ("simplified", 30), ("scaled", 3), ("scale", 3)])
    a = small_int(r, ctl, x)
    return (lambda: getattr(rs, m)(a)), None, rs if m in ("simplify", "scale") else None


def c_rangeset_query(r, ctl, pool):
    rs = pick(r, pool, s.RangeSet) or v.rangeset(r)
    m = r.choice(["contains", "intersects", "isWithin", "isDisjointFrom", "__contains__", "__getitem__"])
    args = [integer(r, ctl) for _ in range(1 if m.startswith("__") else r.choice([1, 2]))]
    return (lambda: getattr(rs, m)(*args)), None, None


def c_floats(r, ctl, pool):
    f, n = r.choice([(s.Angle, 1), (s.Angle.fromDegrees, 1), (s.NormalizedAngle, 1), (s.NormalizedAngle.fromDegrees, 1), (s.Vector3d, 3), (s.UnitVector3d, 3), (s.Matrix3d, 9), (s.Matrix3d, 1),
                     (s.Interval1d, 2), (s.Interval1d, 1), (s.AngleInterval.fromDegrees, 2), (s.AngleInterval.fromRadians, 2), (s.NormalizedAngleInterval.fromRadians, 2),
                     (s.LonLat.fromDegrees, 2), (s.LonLat.fromRadians, 2), (s.Box.fromDegrees, 4), (s.Box.fromRadians, 4), (s.Circle.openingAngleFor, 1)])
    args = [real(r, ctl, 1.5) for _ in range(n)]
    return (lambda: f(*args)), None, None


def c_arith(r, ctl, pool):
    t, m = r.choice([(s.Angle, "__mul__"), (s.Angle, "__truediv__"), (s.Vector3d, "__mul__"), (s.Vector3d, "__truediv__"), (s.UnitVector3d, "__mul__"), (s.UnitVector3d, "__truediv__"), (s.NormalizedAngle, "__mul__"),
                     (s.Angle, "__imul__"), (s.Angle, "__itruediv__"), (s.Vector3d, "__imul__"), (s.Vector3d, "__itruediv__"), (s.Interval1d, "dilateBy"), (s.Interval1d, "erodeBy"), (s.Interval1d, "dilatedBy"),
                     (s.Interval1d, "clipTo"), (s.Interval1d, "expandTo"), (s.Box3d, "dilateBy"), (s.Box3d, "erodeBy"), (s.Box3d, "dilatedBy")])
    o = pick(r, pool, t)
    if o is None:
        return None
    a = [real(r, ctl) for _ in range(3 if t is s.Box3d and r.randrange(2) else 1)]
    mut = m in ("__imul__", "__itruediv__", "dilateBy", "erodeBy", "clipTo", "expandTo")
    return (lambda: getattr(o, m)(*a)), None, o if mut else None


def c_index(r, ctl, pool):
    k = r.randrange(8)
    if k == 6:
        o = v.union(r)
        i = small_int(r, ctl, 3)
        return (lambda: o.cloneOperand(i)), None, None
    if k == 7:
        o, m = v.matrix(r), r.choice(["getRow", "getColumn"])
        i = small_int(r, ctl, 4)
        return (lambda: getattr(o, m)(i)), None, None
    if k == 0:
        m = v.matrix(r)
        key = tuple(small_int(r, ctl, 3) for _ in range(r.randrange(0, 4)))
        return (lambda: m[key]), None, None
    if k == 1:
        ll = v.lonlat(r)
        key = small_int(r, ctl, 2) if r.randrange(2) else slice(small_int(r, ctl, 2), small_int(r, ctl, 3))
        return (lambda: ll[key]), None, None
    o, n = [(v.unit(r), 3), (v.V(1, 2, 3), 3), (v.box3d(r), 3), (v.matrix(r), 3)][k - 2]
    i = r.choice([small_int(r, ctl, n), small_int(r, ctl, 9) , -1, -n, -n - 1, 2 ** 70, -2 ** 70, True, np.int64(1)])
    return (lambda: o[i]), None, None


def odd_int(r, n):
    """An integer about the ends of range(-n, n), or of a machine's integers."""
    x = r.choice([r.randrange(-n, n), r.randrange(-n, n), -n - 1, -n - 2, -n - 1 - r.randrange(9), n, n + 1, -2 * n, 2 * n, -2 * n - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32 + r.randrange(-n, n), -2 ** 32 + r.randrange(n),
                  2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64 + r.randrange(-n, n), -2 ** 64 + r.randrange(n), 2 ** 70, -2 ** 70])
    return x


def c_odd_index(r, ctl, pool):
    """Indexing with any integer: Python's rules, nothing else."""
    k = r.randrange(9)
    o, f, n = [lambda: (v.union(r), lambda o, i: o.cloneOperand(i), 2), lambda: (v.intersection(r), lambda o, i: o.cloneOperand(i), 2), lambda: (v.matrix(r), lambda o, i: o.getRow(i), 3),
               lambda: (v.matrix(r), lambda o, i: o.getColumn(i), 3), lambda: (v.unit(r), lambda o, i: o[i], 3), lambda: (v.V(1, -2, 3.5), lambda o, i: o[i], 3), lambda: (v.box3d(r), lambda o, i: o[i], 3),
               lambda: (v.lonlat(r), lambda o, i: o[i], 2), lambda: (v.rangeset(r), lambda o, i: o[i], -1)][k]()
    if n < 0:
        n = len(o)
    if not n:
        return None
    x = odd_int(r, n)
    expect = v.look(f(o, x % n)) if -n <= x < n else Bad
    a = x
    if r.randrange(4) == 0:
        a = Idx(x, ctl)
        expect = expect if expect is Bad else None     # some index only with real ints
    return (lambda: f(o, a)), expect, None


def c_odd_key(r, ctl, pool):
    o = v.matrix(r)
    x, y = [odd_int(r, 3) if r.randrange(2) else r.randrange(-3, 3) for _ in range(2)]
    expect = v.look(o[x % 3, y % 3]) if -3 <= x < 3 and -3 <= y < 3 else Bad
    key = (Idx(x, ctl) if r.randrange(4) == 0 else x, y)
    return (lambda: o[key]), expect, None


def c_odd_pixel(r, ctl, pool):
    """A pixel index is one of the universe, or refused; no integer is taken for another."""
    t = r.choice(v.PIXELIZATIONS)
    o = t(r.randrange(0, 4))
    u = o.universe()
    a, b = u.ranges()[0]
    x = r.choice([a, b - 1, b, a - 1, r.randrange(a, b), r.randrange(a, b), -1, -b, 0, b + a, 2 * b, 2 ** 31 + a, 2 ** 32 + r.randrange(a, b), 2 ** 63 + r.randrange(a, b), 2 ** 64 - 1, 2 ** 64 + r.randrange(a, b), -2 ** 64 + r.randrange(a, b), -2 ** 32 + a, 2 ** 70])
    good = a <= x < b
    m = r.choice(["pixel", "pixel", "toString"] if t is not s.HealpixPixelization else ["pixel"])
    if good:
        expect = v.look(getattr(o, m)(x))
    elif not 0 <= x < TOP or (m == "pixel" and t in (s.Q3cPixelization, s.HealpixPixelization)):
        expect = Bad
    else:
        expect = None       # these two schemes know the level of an index
    q = Idx(x, ctl) if r.randrange(4) == 0 and t is not s.HealpixPixelization else x
    return (lambda: getattr(o, m)(q)), expect, None


def c_odd_static(r, ctl, pool):
    f, lev = r.choice([(s.HtmPixelization.triangle, s.HtmPixelization.level), (s.HtmPixelization.asString, s.HtmPixelization.level), (s.Mq3cPixelization.quad, s.Mq3cPixelization.level), (s.Mq3cPixelization.asString, s.Mq3cPixelization.level),
                       (s.Mq3cPixelization.neighborhood, s.Mq3cPixelization.level), (s.log2, None), (s.mortonIndexInverse, None), (s.HtmPixelization.level, None), (s.Mq3cPixelization.level, None), (lambda x: s.RangeSet(x), None)])
    x = r.choice([r.randrange(8, 64), r.randrange(300), odd_int(r, 300), odd_int(r, 300), 2 ** r.randrange(64) + r.randrange(9)])
    expect = None
    if not 0 <= x < TOP:
        expect = Bad
    elif lev and lev(x) < 0:
        expect = Bad
    a = Idx(x, ctl) if r.randrange(4) == 0 else x
    return (lambda: f(a)), expect, None


def c_odd_chunker(r, ctl, pool):
    o = v.chunker(r)
    m, n = r.choice([("getChunkBoundingBox", 2), ("getSubChunkBoundingBox", 2), ("getAllSubChunks", 1), ("getStripe", 1), ("getChunk", 2)])
    x = odd_int(r, o.numStripes * (1 if m == "getChunkBoundingBox" else o.numSubStripesPerStripe if n == 2 else 2 * o.numStripes + 3))
    y = r.choice([0, odd_int(r, 4)])
    a = [Idx(x, ctl) if r.randrange(4) == 0 else x] + [y] * (n - 1)
    big = any(not -2 ** 31 <= q < 2 ** 31 for q in [x] + [y] * (n - 1))
    limit = o.numStripes if m == "getChunkBoundingBox" else o.numStripes * o.numSubStripesPerStripe if m == "getSubChunkBoundingBox" else None
    expect = Bad if big or (limit and not 0 <= x < limit) else None
    return (lambda: getattr(o, m)(*a)), expect, None


def c_pixel(r, ctl, pool):
    lev = r.randrange(0, 6)
    p = r.choice([s.HtmPixelization, s.Q3cPixelization, s.Mq3cPixelization, s.HealpixPixelization])
    k = r.randrange(5)
    if k == 0:
        a = Idx(lev, ctl)
        return (lambda: p(a)), None, None
    o = p(lev)
    base = int(o.universe().ranges()[0][0])
    i = base + r.randrange(1, 12)
    a = Idx(i, ctl) if r.randrange(2) else i
    if k == 1:
        return (lambda: o.pixel(a)), None, None
    if k == 2:
        return (lambda: o.toString(a if not isinstance(o, s.HealpixPixelization) else i)), None, None
    if k == 3:
        u = FakeUnit(v.unit(r), ctl)
        return (lambda: o.index(u)), None, None
    if not isinstance(o, s.HealpixPixelization):
        n = Idx(r.randrange(0, 20), ctl)
        c = v.circle(r)
        m = r.choice(["envelope", "interior"])
        return (lambda: getattr(s.HtmPixelization(3), m)(c, n)), None, None
    return (lambda: o.pixel(a)), None, None


def c_static(r, ctl, pool):
    f, n, top = r.choice([(s.HtmPixelization.level, 1, 2 ** 20), (s.HtmPixelization.triangle, 1, 200), (s.HtmPixelization.asString, 1, 200), (s.Mq3cPixelization.level, 1, 2 ** 20), (s.Mq3cPixelization.quad, 1, 200),
                          (s.Mq3cPixelization.neighborhood, 1, 200), (s.log2, 1, 2 ** 40), (s.mortonIndex, 2, 2 ** 31), (s.mortonIndexInverse, 1, 2 ** 60), (s.invert, 1, 8),
                          (s.mortonToHilbert, 2, 33), (s.hilbertToMorton, 2, 33), (s.hilbertIndex, 3, 33), (s.hilbertIndexInverse, 2, 33), (s.Interval1d, 2, 9), (s.Angle, 1, 9)])
    args = [small_int(r, ctl, top) for _ in range(n)]
    return (lambda: f(*args)), None, None


def c_chunker(r, ctl, pool):
    if r.randrange(2):
        args = [small_int(r, ctl, 30), small_int(r, ctl, 6)]
        return (lambda: s.Chunker(*args)), None, None
    o = v.chunker(r)
    m, n = r.choice([("getAllSubChunks", 1), ("getStripe", 1), ("getChunk", 2), ("getChunkBoundingBox", 2), ("getSubChunkBoundingBox", 2)])
    c = o.getAllChunks()
    if m == "getAllSubChunks" or m == "getStripe":
        x = r.choice(c)
        a = [Idx(x, ctl)]
    elif m == "getChunk":
        x = r.choice(c)
        a = [Idx(x, ctl), o.getStripe(x)]
    else:
        a = [small_int(r, ctl, o.numStripes), Idx(0, ctl)]
    return (lambda: getattr(o, m)(*a)), None, None


def c_ivoa(r, ctl, pool):
    t = Text(r.choice(["CIRCLE 10 20 3", "RANGE 10 20 -5 5", "RANGE -Inf +Inf 0 10", "POLYGON 10 10 20 10 15 20", "POLYGON 1 2 3 4", "CIRCLE 1 2", "SQUARE 1 2", "", "CIRCLE a b c", "POLYGON 1 2 3 4 5 6 7"]))
    t.ctl = ctl
    return (lambda: s.Region.from_ivoa_pos(t)), None, None


def c_decode(r, ctl, pool):
    data = v.region(r, 1).encode()
    a = r.choice([data, bytearray(data), memoryview(data), list(data), Seq(list(data), ctl), data.hex(), None, It(list(data), ctl)])
    return (lambda: s.Region.decode(a)), None, None


def c_setstate(r, ctl, pool):
    u = v.unit(r)
    st = tuple(Flt(x, ctl) for x in (u.x(), u.y(), u.z()))
    o = s.UnitVector3d.__new__(s.UnitVector3d)

    def call():
        o.__setstate__(st)
        return o
    return call, None, None


def c_wrong_operand(r, ctl, pool):
    if not pool:
        return None
    o = r.choice(pool)
    m = r.choice(["__iand__", "__ior__", "__isub__", "__ixor__", "__iadd__", "__imul__", "clipTo", "expandTo", "dilateBy", "erodeBy", "union", "intersection", "relate", "contains", "__eq__", "__ne__", "__and__"])
    f = getattr(o, m, None)
    if f is None or not isinstance(o, v.LIBRARY):
        return None
    bad = r.choice([None, "x", [1, 2], Seq([1, 2], ctl), It([1], ctl), object, {}, b"ab", (1, 2)])
    return (lambda: f(bad)), None, None


CALLS = [c_rangeset, c_rangeset, c_rangeset, c_rangeset, c_rangeset_array, c_rangeset_of_rangeset, c_polygon, c_polygon, c_contains, c_contains, c_contains_broadcast, c_rangeset_mutate, c_rangeset_mutate, c_rangeset_scale,
         c_rangeset_query, c_floats, c_floats, c_arith, c_arith, c_index, c_pixel, c_static, c_chunker, c_ivoa, c_decode, c_setstate, c_wrong_operand,
         c_odd_index, c_odd_index, c_odd_key, c_odd_pixel, c_odd_static, c_odd_chunker]


def build(index, seed, ctl, pool):
    return CALLS[index % len(CALLS)](random.Random(seed), ctl, pool)


def name(index):
    return CALLS[index % len(CALLS)].__name__[2:]
