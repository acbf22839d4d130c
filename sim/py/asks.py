"""Questions to the package's objects, and recipes that make those objects anew."""
import copy, operator, pickle, random

import numpy as np
import yaml
import lsst.sphgeom as s
import calls as c
import values as v
import w_transport

MUTATORS = {"complement", "clear", "normalize", "fill"}
SKIP = {"get_include"}
_methods = {}


def methods(t):
    """The public methods of a type that may be callable with no argument."""
    if t not in _methods:
        _methods[t] = [m for m in sorted(dir(t)) if not m.startswith("_") and m not in SKIP and callable(getattr(t, m))]
    return _methods[t]


def make(recipe):
    """An object from its history."""
    o = None
    for step in recipe:
        if step[0] == "new":
            o = v.make(step[1], step[2])
        elif step[0] == "part":
            o = PARTS[step[1] % len(PARTS)](random.Random(step[2]))
        else:
            o = apply(o, step)
    return o


def apply(o, step):
    if step[0] == "change":
        w_transport.mutate(o, random.Random(step[1]))
        return o
    if step[0] == "twin":
        t = w_transport.near_twin(o, step[1])
        return o if t is None else t
    raise AssertionError(step)


# Kinds that matter most to the questions below.
PARTS = [lambda r: s.HealpixPixelization(r.randrange(0, 4)), lambda r: r.choice(v.PIXELIZATIONS)(r.randrange(0, 4)), lambda r: v.region(r, r.choice([0, 0, 1])), lambda r: v.region(r, 0), v.rangeset, v.chunker]


def level(r):
    return r.randrange(0, 4)


def pixelization(o, r):
    """`o` if it is a coarse pixelization, or a new one."""
    return o if isinstance(o, v.PIXELIZATIONS) and o.getLevel() <= (3 if isinstance(o, s.HealpixPixelization) else 8) else r.choice(v.PIXELIZATIONS)(level(r))


def region(o, r):
    return o if isinstance(o, s.Region) else v.region(r, 0)


def q_overlap(o, p, r):
    z, g = pixelization(o, r), region(p, r)
    n = r.choice([0, 0, 0, 1, 5]) if not isinstance(z, s.HealpixPixelization) else 0
    m = r.choice(["envelope", "interior", "envelope"])
    yield lambda: getattr(z, m)(g, n) if n else getattr(z, m)(g)
    if r.randrange(3) == 0:
        h = region(w_transport.near_twin(g, r.randrange(9)), r)
        yield lambda: getattr(z, m)(h)


def q_pixel(o, p, r):
    z = pixelization(o, r)
    u = z.universe()
    a, b = u.ranges()[0]
    i, d = r.randrange(a, b), v.unit(r)
    yield lambda: u
    yield lambda: z.pixel(i)
    yield lambda: z.toString(i)
    yield lambda: int(z.index(d))
    yield lambda: z.pixel(r.choice([b, a - 1, b + 7, -1]))
    yield z.getLevel


def q_relate(o, p, r):
    x, y = region(o, r), region(p, r)
    d = [v.unit(r) for _ in range(3)]
    yield lambda: x.relate(y)
    yield lambda: y.relate(x)
    yield lambda: [x.contains(u) for u in d]
    yield lambda: x.contains([u.x() for u in d], [u.y() for u in d], [u.z() for u in d])
    yield lambda: x.overlaps(y) if hasattr(x, "overlaps") else None
    yield lambda: [x.getBoundingBox(), x.getBoundingBox3d(), x.getBoundingCircle()]


def q_pickle(o, p, r):
    yield lambda: pickle.dumps(o, r.choice([2, 4]))
    yield lambda: pickle.loads(pickle.dumps([o, p, o]))
    yield lambda: copy.copy(o)
    yield lambda: copy.deepcopy([p, o, p])


def q_yaml(o, p, r):
    t = []
    x = [q for q in (o, p) if isinstance(q, w_transport.YAML_TYPES)] or [v.region(r, 1)]
    yield lambda: t.append(yaml.dump(x)) or t[0]
    yield lambda: yaml.load(t[0], Loader=r.choice([yaml.SafeLoader, yaml.Loader, yaml.FullLoader]))


def q_text(o, p, r):
    yield lambda: str(o)
    yield lambda: repr(p)
    yield lambda: "%s" % [o, p]
    if isinstance(o, s.Region):
        yield lambda: o.encode()
        yield lambda: s.Region.decode(o.encode())
        yield lambda: s.Region.decode(o.encode()[:-1])
        yield lambda: s.Region.decodeBase64(o.encode().hex()) if hasattr(s.Region, "decodeBase64") else None
        yield lambda: s.Region.from_ivoa_pos(o.to_ivoa_pos())


def q_chunks(o, p, r):
    z, g = o if type(o) is s.Chunker and o.numStripes < 25 else s.Chunker(r.randrange(1, 20), r.randrange(1, 5)), region(p, r)
    all_ = z.getAllChunks()
    k = r.choice(all_)
    yield lambda: all_
    yield lambda: z.getChunksIntersecting(g)
    yield lambda: z.getSubChunksIntersecting(v.circle(random.Random(r.randrange(99))))
    yield lambda: [z.getAllSubChunks(k), z.getStripe(k), z.getChunkBoundingBox(z.getStripe(k), 0)]


OPERATORS = [operator.add, operator.sub, operator.mul, operator.truediv, operator.and_, operator.or_, operator.xor, operator.eq, operator.ne, operator.lt, operator.ge, operator.contains]


def q_operators(o, p, r):
    q = p if r.randrange(2) else type(o).__name__ in ("RangeSet", "Angle", "Vector3d") and copy.copy(o) or 2.5
    for f in r.sample(OPERATORS, 4):
        yield lambda f=f: f(o, q)
        yield lambda f=f: f(q, o)
    yield lambda: -o
    yield lambda: ~o


def q_methods(o, p, r):
    ms = methods(type(o))
    for m in r.sample(ms, min(8, len(ms))):
        if m in MUTATORS:
            x = pickle.loads(pickle.dumps(o))
            yield lambda m=m, x=x: [getattr(x, m)(), x]
        else:
            yield lambda m=m: getattr(o, m)()


def q_binary(o, p, r):
    """Any public method, with the other object, or something of the same type, as its argument."""
    if isinstance(o, v.PIXELIZATIONS) and o.getLevel() > (3 if isinstance(o, s.HealpixPixelization) else 5):
        return
    if type(o) is s.Chunker and o.numStripes * o.numSubStripesPerStripe > 60:
        return
    ms = methods(type(o))
    for m in r.sample(ms, min(8, len(ms))):
        x = pickle.loads(pickle.dumps(o))
        a = r.choice([p, o, v.unit(r), v.A(0.25), r.randrange(9)])
        yield lambda m=m, x=x, a=a: [getattr(x, m)(a), x]


def q_functions(o, p, r):
    a, b, d = v.unit(r), v.unit(r), v.unit(r)
    x, y, n = r.randrange(2 ** 20), r.randrange(2 ** 20), r.randrange(1, 20)
    k = r.randrange(1, 4)
    yield lambda: [s.orientation(a, b, d), s.orientation(a, b, b), s.orientationX(a, b), s.orientationY(b, d), s.orientationZ(a, d)]
    yield lambda: [s.log2(x), s.mortonIndex(x, y), s.mortonIndexInverse(x * y), s.hilbertIndex(x, y, n), s.hilbertIndexInverse(x, n), s.mortonToHilbert(x, n), s.hilbertToMorton(x, n)]
    yield lambda: [s.HtmPixelization.level(x), s.HtmPixelization.asString(8 << 2 * k), s.HtmPixelization.triangle(8 << 2 * k | x & 3), s.Mq3cPixelization.level(x), s.Mq3cPixelization.quad(10 << 2 * k | x & 3)]
    yield lambda: [s.NormalizedAngle.between(v.normalized(r), v.normalized(r)), s.NormalizedAngle.center(v.normalized(r), v.normalized(r))]
    yield lambda: [s.ConvexPolygon.convexHull([a, b, d, v.unit(r)]), s.UnitVector3d.orthogonalTo(a, b), s.UnitVector3d.northFrom(a)]
    yield lambda: [s.getMinSquaredChordLength(a, b, d, v.unit(r)), s.getMaxSquaredChordLength(a, b, d, v.unit(r)), s.getMinAngleToCircle(v.A(0.5), v.A(k / 4)), s.getMaxAngleToCircle(v.A(0.5), v.A(k / 4)), s.getWeightedCentroid(a, b, d)]
    yield lambda: [s.invert(k), s.orientationExact(v.V(a), v.V(b), v.V(d))]
    yield lambda: [s.LonLat.latitudeOf(a), s.LonLat.longitudeOf(a), s.Box.halfWidthForCircle(v.A(0.25), v.A(k / 4)), s.Circle.squaredChordLengthFor(v.A(k)), s.Circle.openingAngleFor(k / 4)]
    yield lambda: [t.full() for t in (s.Box, s.Circle, s.Ellipse, s.Interval1d, s.AngleInterval, s.NormalizedAngleInterval, s.Box3d)] + [t.empty() for t in (s.Box, s.Circle, s.Ellipse)]
    yield lambda: [s.UnitVector3d.X(), s.UnitVector3d.Y(), s.UnitVector3d.Z(), s.Box.allLongitudes(), s.Box.allLatitudes(), s.Box3d.aroundUnitSphere(), s.Angle.nan()]


def q_iterables(o, p, r):
    f, _, target = c.build(r.randrange(len(c.CALLS)), r.randrange(1 << 20), c.Ctl(), []) or (None, None, None)
    if f is not None:
        yield f


def q_answers(o, p, r):
    yield lambda: v.answers(o)


QUESTIONS = [q_overlap, q_overlap, q_overlap, q_pixel, q_pixel, q_relate, q_pickle, q_yaml, q_yaml, q_text, q_chunks, q_operators, q_methods, q_methods, q_binary, q_functions, q_iterables, q_answers]


def ask(number, o, p, seed, keep=None, also=(), between=None):
    """The answers to one question, as text. The answers themselves are added to `keep`."""
    r = random.Random(seed)
    out = []
    try:
        for f in QUESTIONS[number % len(QUESTIONS)](o, p, r):
            try:
                if between:
                    between()
                a = f()
            except (Exception,) + also as e:
                out.append(type(e).__name__)
                continue
            out.append(v.look(a))
            if keep is not None:
                keep.append(a)
    except (Exception,) + also as e:
        out.append("setup " + type(e).__name__)
    return out


def scribble(a, r):
    """The caller does as it likes with an answer that it got."""
    if type(a) in (list, tuple):
        for x in a:
            scribble(x, r)
        if type(a) is list:
            r.choice([a.clear, lambda: a.append(7), a.reverse])()
    elif type(a) is dict:
        a.clear()
    elif isinstance(a, np.ndarray) and a.flags.writeable and a.size:
        try:
            a[...] = 1
        except Exception:
            pass
    elif isinstance(a, v.LIBRARY):
        w_transport.mutate(a, r)


def name(number):
    return QUESTIONS[number % len(QUESTIONS)].__name__[2:]
