"""C14: histories of creating, combining, changing, copying and dropping Python
references to library objects, with garbage collection at chosen points, against
a model that knows the value of every object that is still referenced."""
import array, copy, ctypes, gc, operator, pickle, random, sys, weakref

import numpy as np
import lsst.sphgeom as s
import values as v
import calls

A, NA, U, V = s.Angle, s.NormalizedAngle, s.UnitVector3d, s.Vector3d
TOP = 2 ** 64 - 1
LIMIT = 26


class SubCircle(s.Circle):
    """A class derived in Python, with attributes."""


class SubRanges(s.RangeSet):
    pass


KINDS = dict(v.KINDS)
KINDS["subcircle"] = lambda r: SubCircle(v.circle(r))
KINDS["subranges"] = lambda r: SubRanges(v.rangeset(r))
NAMES = list(KINDS)
look = v.look


def look_sub(o):
    """Like look, but total over derived classes and containers of them."""
    if isinstance(o, SubRanges):
        return ("SubRanges", repr(o.ranges()))
    if type(o) in (list, tuple):
        return (type(o).__name__,) + tuple(look_sub(x) for x in o)
    return look(o)


# ---- values obtained from an object ------------------------------------------------

PLAIN = {
    A: [], NA: [], U: [], V: [],
    s.LonLat: ["getLon", "getLat"],
    s.Matrix3d: ["transpose", "inverse"],
    s.Interval1d: ["getA", "getB", "getCenter", "getSize"],
    s.AngleInterval: ["getA", "getB", "getCenter", "getSize"],
    s.NormalizedAngleInterval: ["getA", "getB", "getCenter", "getSize"],
    s.Box3d: ["x", "y", "z", "getCenter", "getWidth", "getHeight", "getDepth"],
    s.Box: ["getLon", "getLat", "getCenter", "getWidth", "getHeight"],
    s.Circle: ["getCenter", "getOpeningAngle", "complemented"],
    s.Ellipse: ["getCenter", "getF1", "getF2", "getAlpha", "getBeta", "getGamma", "getTransformMatrix", "complemented"],
    s.ConvexPolygon: ["getVertices", "getVertices", "getCentroid"],
    s.RangeSet: ["ranges", "complemented", "__invert__"],
    s.Chunker: ["getAllChunks"],
}
REGION = ["clone", "getBoundingBox", "getBoundingBox3d", "getBoundingCircle", "encode", "__getstate__", "__reduce__"]


def getters(o):
    out = []
    for t, names in PLAIN.items():
        if isinstance(o, t):
            out += [(n, (lambda o, n=n: getattr(o, n)())) for n in names]
    if isinstance(o, s.Region):
        out += [(n, (lambda o, n=n: getattr(o, n)())) for n in REGION if hasattr(o, n)]
        out.append(("getRegions", lambda o: s.Region.getRegions(o)))
    if isinstance(o, s.CompoundRegion):
        out += [("cloneOperand(%d)" % i, lambda o, i=i: o.cloneOperand(i)) for i in (0, 1, -1, -2)] * 2
    if isinstance(o, (s.Box3d, s.Matrix3d, s.LonLat, V, U)):
        out += [("[%d]" % i, lambda o, i=i: o[i]) for i in range(-len(o), len(o))]
    if isinstance(o, s.LonLat):
        out += [("iter", lambda o: list(o)), ("vector", lambda o: U(o))]
    if isinstance(o, s.Matrix3d):
        out += [("getRow", lambda o: o.getRow(1)), ("getColumn", lambda o: o.getColumn(2))]
    if isinstance(o, s.RangeSet):
        out += [("iter", lambda o: list(o)), ("iter", lambda o: list(iter(o)))]
        if len(o):
            out.append(("[]", lambda o: o[len(o) // 2]))
    if isinstance(o, v.PIXELIZATIONS):
        out += [("universe", lambda o: o.universe()), ("pixel", lambda o: o.pixel(int(o.index(v.PROBES_U[5])))), ("index", lambda o: o.index(v.PROBES_U[5]))]
        if o.getLevel() <= (1 if isinstance(o, s.HealpixPixelization) else 5):
            out += [("envelope", lambda o: o.envelope(v.PROBES_R[0])), ("interior", lambda o: o.interior(v.PROBES_R[2]))]
    if isinstance(o, s.Chunker):
        out += [("box", lambda o: o.getChunkBoundingBox(0, 0)), ("sub", lambda o: o.getAllSubChunks(o.getAllChunks()[0])),
                ("intersecting", lambda o: o.getChunksIntersecting(v.PROBES_R[0])), ("reduce", lambda o: o.__reduce__())]
    if isinstance(o, s.Ellipse):
        out.append(("matrix row", lambda o: o.getTransformMatrix().getRow(0)))
    if isinstance(o, s.ConvexPolygon):
        out.append(("vertex", lambda o: o.getVertices()[1]))
    if isinstance(o, s.Box):
        out += [("lon start", lambda o: o.getLon().getA()), ("lat end", lambda o: o.getLat().getB())]
    return out


def operands(data):
    """The two records inside the encoding of a compound region."""
    n = int.from_bytes(data[1:9], "little")
    return data[9:9 + n], data[17 + n:]


def expected_copy(name, o):
    """The encoding that a copy, or a copy of a part, must have; None if this is not a copy."""
    if name == "clone":
        return o.encode()
    if name.startswith("cloneOperand("):
        return operands(o.encode())[int(name[13:-1]) % 2]
    return None


# ---- two objects make a third ------------------------------------------------------

def scalar(r, o):
    t = type(o)
    if isinstance(o, s.Interval1d):
        return v.num(r)
    if isinstance(o, s.NormalizedAngleInterval):
        return v.normalized(r)
    if isinstance(o, s.AngleInterval):
        return A(v.num(r))
    if isinstance(o, s.Box3d):
        return V(v.num(r), v.num(r), v.num(r))
    if isinstance(o, s.Box):
        return v.lonlat(r)
    if isinstance(o, s.Circle):
        return v.unit(r)
    return None


def base(o):
    for t in v.LIBRARY:
        if t is not s.Region and isinstance(o, t):
            return t
    for t in (s.Box, s.Circle, s.Ellipse, s.ConvexPolygon, s.UnionRegion, s.IntersectionRegion):
        if isinstance(o, t):
            return t
    return type(o)


def combinations(a, b):
    out = []
    if isinstance(a, s.Region) and isinstance(b, s.Region):
        out += [("union", lambda a, b: s.UnionRegion(a, b)), ("intersection", lambda a, b: s.IntersectionRegion(a, b)), ("relate", lambda a, b: a.relate(b))]
    if isinstance(a, s.RangeSet) and isinstance(b, s.RangeSet):
        out += [(n, lambda a, b, n=n: getattr(a, n)(b)) for n in ("intersection", "union", "difference", "symmetricDifference", "contains", "intersects")]
        out += [("op", lambda a, b, f=f: f(a, b)) for f in (operator.and_, operator.or_, operator.sub, operator.xor, operator.eq)]
    if isinstance(a, (s.Box, s.Circle, s.Box3d) + v.INTERVALS) and base(a) is base(b):
        out += [(n, lambda a, b, n=n: getattr(a, n)(b)) for n in ("clippedTo", "expandedTo", "contains", "intersects", "isWithin", "isDisjointFrom")]
        out.append(("eq", operator.eq))
    if isinstance(a, (U, V)) and isinstance(b, (U, V)):
        out += [("add", operator.add), ("sub", operator.sub), ("cross", lambda a, b: a.cross(b)), ("dot", lambda a, b: a.dot(b)), ("cwise", lambda a, b: a.cwiseProduct(b))]
        if isinstance(a, U) and isinstance(b, U):
            out += [("circle", lambda a, b: s.Circle(a, A(0.3))), ("ellipse", lambda a, b: s.Ellipse(a, b, A(1.6))), ("lonlat", lambda a, b: s.LonLat(a)), ("orthogonal", lambda a, b: U.orthogonalTo(a, b)),
                    ("polygon", lambda a, b: s.ConvexPolygon([a, b, -U(V(a.x() + b.x(), a.y() + b.y(), a.z() + b.z()))]))]
    if isinstance(a, (A, NA)) and isinstance(b, (A, NA)):
        out += [("add", operator.add), ("sub", operator.sub), ("lt", operator.lt)]
        if type(a) is type(b):
            out.append(("interval", lambda a, b: (s.AngleInterval if type(a) is A else s.NormalizedAngleInterval)(a, b)))
        if type(a) is NA and type(b) is A:
            out.append(("lonlat", lambda a, b: s.LonLat(a, b)))
    if type(a) is s.NormalizedAngleInterval and type(b) is s.AngleInterval:
        out.append(("box", lambda a, b: s.Box(a, b)))
    if type(a) is s.Interval1d and type(b) is s.Interval1d:
        out.append(("box3d", lambda a, b: s.Box3d(a, b, a)))
    if type(a) is s.LonLat and type(b) is s.LonLat:
        out += [("box", lambda a, b: s.Box(a, b)), ("vector", lambda a, b: U(a))]
    if type(a) is s.Matrix3d:
        if type(b) is s.Matrix3d:
            out += [("mul", operator.mul), ("add", operator.add), ("inner", lambda a, b: a.inner(b))]
        if isinstance(b, (U, V)):
            out.append(("mul", operator.mul))
    if isinstance(a, v.PIXELIZATIONS) and isinstance(b, U):
        out += [("index", lambda a, b: int(a.index(b))), ("pixel", lambda a, b: a.pixel(int(a.index(b))))]
    if isinstance(a, s.Chunker) and isinstance(b, s.Region) and a.numStripes < 15:
        out.append(("chunks", lambda a, b: a.getChunksIntersecting(b)))
    if isinstance(a, s.Region) and isinstance(b, U):
        out += [("contains", lambda a, b: a.contains(b)), ("in", lambda a, b: b in a)]
    return out


# ---- changes in place: (name, in-place form, copying form, must it return self) ------

def mutations(o, r, other):
    """`other` is another referenced object (or None) that may be the argument."""
    out = []

    def arg(t):
        return other if other is not None and isinstance(other, t) and r.randrange(2) else None
    if isinstance(o, v.INTERVALS + (s.Box3d, s.Box, s.Circle)):
        x = arg(base(o)) or scalar(r, o)
        for m, c in (("clipTo", "clippedTo"), ("expandTo", "expandedTo")):
            out.append((m, lambda o, m=m: getattr(o, m)(x), lambda o, c=c: getattr(o, c)(x), True))
        if isinstance(o, (s.Interval1d, s.Box3d)):
            w = (v.small(r) - 0.2,)
            if isinstance(o, s.Box3d) and r.randrange(2):
                w = w * 3
        elif isinstance(o, s.Box):
            w = (A(v.small(r)),) * r.choice([1, 2])
        else:
            w = (A(v.small(r)),)
        for m, c in (("dilateBy", "dilatedBy"), ("erodeBy", "erodedBy")):
            out.append((m, lambda o, m=m: getattr(o, m)(*w), lambda o, c=c: getattr(o, c)(*w), True))
    if isinstance(o, (s.Circle, s.Ellipse)):
        out.append(("complement", lambda o: o.complement(), lambda o: o.complemented(), True))
    if isinstance(o, s.RangeSet):
        b = arg(s.RangeSet) or v.rangeset(r)
        for n, f, g in (("&=", operator.iand, operator.and_), ("|=", operator.ior, operator.or_), ("-=", operator.isub, operator.sub), ("^=", operator.ixor, operator.xor)):
            out.append((n, lambda o, f=f: f(o, b), lambda o, g=g: g(o, b), True))
        i, j = v.u64(r), v.u64(r)
        n, k = r.randrange(0, 6), r.randrange(0, 4)
        out += [("complement", lambda o: o.complement(), lambda o: ~o, True),
                ("simplify", lambda o: o.simplify(n), lambda o: o.simplified(n), True), ("scale", lambda o: o.scale(k), lambda o: o.scaled(k), True),
                ("insert", lambda o: o.insert(i, j), lambda o: o | s.RangeSet(i, j), False), ("insert1", lambda o: o.insert(i), lambda o: o | s.RangeSet(i), False),
                ("erase", lambda o: o.erase(i, j), lambda o: o - s.RangeSet(i, j), False), ("erase1", lambda o: o.erase(i), lambda o: o - s.RangeSet(i), False),
                ("clear", lambda o: o.clear(), lambda o: s.RangeSet(), False), ("fill", lambda o: o.fill(), lambda o: ~s.RangeSet(), False)]
    if type(o) is A:
        b = arg(A) or A(v.num(r))
        x = r.choice([2.0, -0.5, 3.0])
        out += [("+=", lambda o: operator.iadd(o, b), lambda o: o + b, True), ("-=", lambda o: operator.isub(o, b), lambda o: o - b, True),
                ("*=", lambda o: operator.imul(o, x), lambda o: o * x, True), ("/=", lambda o: operator.itruediv(o, x), lambda o: o / x, True)]
    if type(o) is V:
        b = arg((V, U)) or V(v.num(r), v.num(r), v.num(r))
        x = r.choice([2.0, -0.5, 3.0])
        out += [("+=", lambda o: operator.iadd(o, b), lambda o: o + b, True), ("-=", lambda o: operator.isub(o, b), lambda o: o - b, True),
                ("*=", lambda o: operator.imul(o, x), lambda o: o * x, True), ("/=", lambda o: operator.itruediv(o, x), lambda o: o / x, True)]
    return out


def clone(o):
    """An independent copy made by the library."""
    if isinstance(o, s.Region):
        return o.clone()
    return base(o)(o)


class Cell:
    __slots__ = ("want", "ref", "names", "kind")


class World:
    step_budget = 6_000_000_000
    rule = "a run is non-trivial when it obtained values from an object and later changed or released that object, or repeated its history to look for leaks"
    real = "the library, its Python bindings, pybind11's object lifetime machinery, CPython's reference counting and collector"
    stub = "the user's program; memory is released eagerly and poisoned (AddressSanitizer under PYTHONMALLOC=malloc)"
    state_measure = "distinct (operation, method, type of the object, type of the result or exception) tuples"

    def start(self):
        self.asan = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes")
        self.asan.restype = ctypes.c_size_t

    def finish(self):
        pass

    def generate(self, r, thorough):
        reps = 1 if r.randrange(4) else 5
        plan = [("repeat", reps)]
        ks = [r.randrange(len(NAMES)) for _ in range(r.randrange(2, 6))]
        for _ in range(r.randrange(15, (40 if not thorough else 90) if reps == 1 else 25)):
            k = r.randrange(22)
            i = r.randrange(64)
            if k < 4 or len(plan) < 4:
                plan.append(("new", r.choice(ks) if r.randrange(2) else r.randrange(len(NAMES)), r.randrange(1 << 20)))
            elif k < 9:
                plan.append(("get", i, r.randrange(64), r.randrange(4)))
            elif k < 12:
                plan.append(("combine", i, r.randrange(64), r.randrange(64)))
            elif k < 16:
                plan.append(("change", i, r.randrange(64), r.randrange(64), r.randrange(1 << 16)))
            elif k == 16:
                plan.append(("copy", i, r.randrange(6)))
            elif k == 17:
                plan.append(("alias", i))
            elif k == 18:
                plan.append(("drop", i))
            elif k == 19:
                plan.append(r.choice([("gc",), ("dropall", r.randrange(8)), ("cycle", i), ("threshold", r.choice([1, 2, 5, 20, 100])), ("walk", i, r.randrange(1 << 16))]))
            elif k == 20:
                plan.append(("fail", r.randrange(len(calls.CALLS)), r.randrange(1 << 20), r.randrange(1 << 10), r.randrange(1 << 10)))
            else:
                plan.append(r.choice([("again", i, r.randrange(64), r.randrange(len(calls.CALLS)), r.randrange(1 << 20), r.randrange(1 << 10)), ("array", i, r.randrange(1 << 16)), ("edit", i, r.randrange(8)), ("temporary", r.randrange(len(NAMES)), r.randrange(1 << 20), r.randrange(64))]))
        return plan

    def execute(self, plan, run):
        run.asan = self.asan
        reps = 1
        body = plan
        if plan and plan[0][0] == "repeat":
            reps, body = max(1, min(plan[0][1], 8)), plan[1:]
        if reps < 4:
            for _ in range(reps):
                History(run, True).play(body)
            return
        run.nontrivial = True
        run.count("probe.repeated_histories")
        live, mem, objs = (array.array("q", [0] * reps) for _ in range(3))
        for n in range(reps):
            h = History(run, False)
            h.play(body)
            del h
            gc.collect()
            sys._clear_type_cache()
            live[n] = run.native.live()
            mem[n] = self.asan()
            objs[n] = len(gc.get_objects())
        # The first executions fill caches; what grows in every later one is lost.
        for what, x in (("objects allocated by the library", live), ("bytes of the process", mem), ("objects known to the collector", objs)):
            d = [b - a for a, b in zip(x[1:], x[2:])]
            if min(d) > 0:
                run.fail("leak", "every repetition of the history leaves %s behind: growth %r" % (what, d))
        run.event("repeated", reps)


class History:
    """One execution of the operations, with all references it holds."""

    def __init__(self, run, checks):
        self.run, self.checks = run, checks
        self.names = []          # [object, Cell]
        self.got = False

    # -- the model --
    def add(self, o, kind=""):
        for n in self.names:
            if n[0] is o:
                n[1].names += 1
                self.names.append([o, n[1]])
                return
        c = Cell()
        c.want, c.names, c.kind = look_sub(o), 1, kind or type(o).__name__
        try:
            c.ref = weakref.ref(o)
        except TypeError:
            c.ref = None
        self.names.append([o, c])

    def release(self, i):
        c = self.names[i][1]
        self.holders(i)
        del self.names[i]
        c.names -= 1
        if c.names == 0 and c.ref is not None and c.ref() is not None:
            self.run.fail("kept-alive", "a %s is still alive after its last reference was dropped (references: %d)" % (c.kind, len(gc.get_referrers(c.ref()))))

    def verify(self, what):
        if not self.checks:
            return
        for o, c in self.names:
            now = look_sub(o)
            if now != c.want:
                self.run.fail("value-changed", "%s changed another object (%s) from %s to %s" % (what, c.kind, c.want, now))

    def refs(self):
        return [sys.getrefcount(n[0]) for n in self.names]

    def same_refs(self, before, what, n):
        after = self.refs()[:n]
        if after != before:
            i = next(i for i in range(n) if after[i] != before[i])
            self.run.fail("reference-count", "%s changed the reference count of a %s by %d" % (what, self.names[i][1].kind, after[i] - before[i]))

    def pick(self, i):
        return i % len(self.names) if self.names else None

    # -- the operations --
    def play(self, body):
        for op in body:
            self.run.simtime += 1
            while len(self.names) > LIMIT:
                self.release(0)
            f = OPS.get(op[0])      # (a fresh attribute name would grow the interpreter's method cache)
            if f is None:
                continue
            what = f(self, *op[1:])
            if what:
                self.run.count("op." + op[0])
                self.verify(what)
        while self.names:
            self.release(len(self.names) - 1)

    def op_new(self, k, seed):
        name = NAMES[k % len(NAMES)]
        o = KINDS[name](random.Random(seed))
        if name in ("subcircle", "subranges"):
            o.note = [1, 2]
        self.add(o, name)
        self.run.event("new", name, self.names[-1][1].want)
        return "making a " + name

    def attempt(self, f):
        try:
            return f(), ""
        except Exception as e:
            return None, type(e).__name__

    def op_get(self, i, g, how):
        """Obtain a value; keep all of it, or a part, or nothing."""
        i = self.pick(i)
        if i is None:
            return
        gs = getters(self.names[i][0])
        if not gs:
            return
        name, f = gs[g % len(gs)]
        what = "%s.%s" % (self.names[i][1].kind, name)
        before = self.refs()
        res, err = self.attempt(lambda: f(self.names[i][0]))
        again, _ = self.attempt(lambda: f(self.names[i][0]))
        if look_sub(res) != look_sub(again):
            self.run.fail("unstable-value", "%s gives %s and then %s" % (what, look_sub(res), look_sub(again)))
        if not err and isinstance(res, s.Region):
            e = expected_copy(name, self.names[i][0])
            if e is not None and res.encode() != e:
                self.run.fail("copy-differs", "%s is encoded as %s, not %s" % (what, res.encode().hex()[:600], e.hex()[:600]))
        if isinstance(res, v.LIBRARY + (list,)) and res is again:
            self.run.fail("shared-value", "%s gives the same mutable object twice" % what)
        if any(res is n[0] for n in self.names) and isinstance(res, v.LIBRARY + (list,)):
            self.run.fail("shared-value", "%s gives an object that already existed" % what)
        del again
        self.same_refs(before, what, len(before))
        self.run.event("get", what, look_sub(res) if not err else err)
        self.run.state("get", what, type(res).__name__ if not err else err)
        self.keep(res, how, what)
        del res
        self.got = True
        return what

    def keep(self, res, how, what):
        if isinstance(res, v.LIBRARY):
            self.add(res, what)
        elif type(res) in (list, tuple) and res:
            if how != 1:
                self.add(res, what)
            if how:
                x = res[how % len(res)]
                if isinstance(x, v.LIBRARY + (list, tuple)):
                    self.add(x, what)
        elif type(res) in (bytes, str) or hasattr(res, "dtype"):
            self.add(res, what)

    def op_combine(self, i, j, m):
        i, j = self.pick(i), self.pick(j)
        if i is None:
            return
        cs = combinations(self.names[i][0], self.names[j][0])
        if not cs:
            # Look for a partner that combines.
            for j in range(len(self.names)):
                cs = combinations(self.names[i][0], self.names[j][0])
                if cs:
                    break
            else:
                return
        name, f = cs[m % len(cs)]
        what = "%s of %s and %s" % (name, self.names[i][1].kind, self.names[j][1].kind)
        before = self.refs()
        res, err = self.attempt(lambda: f(self.names[i][0], self.names[j][0]))
        if isinstance(res, v.LIBRARY) and any(res is n[0] for n in self.names):
            self.run.fail("shared-value", "%s gives an object that already existed" % what)
        if not err and name in ("union", "intersection") and isinstance(res, (s.UnionRegion, s.IntersectionRegion)):
            a, b = self.names[i][0].encode(), self.names[j][0].encode()
            e = name[:1].encode() + len(a).to_bytes(8, "little") + a + len(b).to_bytes(8, "little") + b
            if res.encode() != e:
                self.run.fail("copy-differs", "%s is encoded as %s, not %s" % (what, res.encode().hex()[:600], e.hex()[:600]))
        self.same_refs(before, what, len(before))
        self.run.event("combine", what, look_sub(res) if not err else err)
        self.run.state("combine", name, type(self.names[i][0]).__name__, type(self.names[j][0]).__name__, type(res).__name__, err)
        self.keep(res, 0, name)
        self.got = True
        return what

    def op_change(self, i, m, j, seed):
        """Change an object in place and compare with the copying form."""
        i, j = self.pick(i), self.pick(j)
        if i is None:
            return
        o, c = self.names[i]
        ms = mutations(o, random.Random(seed), self.names[j][0])
        if not ms:
            for k in range(len(self.names)):
                o, c = self.names[k]
                ms = mutations(o, random.Random(seed), self.names[j][0])
                if ms:
                    i = k
                    break
            else:
                return
        name, inplace, copying, returns = ms[m % len(ms)]
        what = "%s of a %s" % (name, c.kind)
        del ms
        twin = clone(o)
        expect, cerr = self.attempt(lambda: copying(o))
        if look_sub(o) != c.want:
            self.run.fail("copying-form-changed", "the copying form of %s changed its object to %s" % (what, look_sub(o)))
        if isinstance(expect, v.LIBRARY) and expect is o:
            self.run.fail("shared-value", "the copying form of %s returned its own object" % what)
        before = self.refs()
        res, err = self.attempt(lambda: inplace(o))
        if err != cerr:
            self.run.fail("forms-differ", "%s raised %s, its copying form %s" % (what, err or "nothing", cerr or "nothing"))
        if not err:
            if (returns or res is not None) and res is not o:
                self.run.fail("identity-lost", "%s returned another object" % what)
            res = None
            self.same_refs(before, what, len(before))
            b = base(o)
            if look(b(o) if type(o) is not b else o)[1:] != look(b(expect) if type(expect) is not b else expect)[1:]:
                self.run.fail("forms-differ", "%s left %s, its copying form gives %s" % (what, look_sub(o), look_sub(expect)))
            if type(o) in (SubCircle, SubRanges) and getattr(o, "note", None) != [1, 2]:
                self.run.fail("identity-lost", "%s lost the attributes of the object" % what)
            self.names[i][1].want = look_sub(o)
        self.run.event("change", what, err, c.want)
        self.run.state("change", name, type(o).__name__, err)
        if self.got:
            self.run.nontrivial = True
        # A copy taken before stays what it was.
        if not err and isinstance(twin, v.LIBRARY) and twin is o:
            self.run.fail("shared-value", "a copy of a %s is the object itself" % c.kind)
        del twin, expect
        self.add(clone(o), "copy")
        self.containers()
        return what

    def containers(self):
        """Lists and tuples see the changes of the objects in them."""
        for o, c in self.names:
            if type(o) in (list, tuple):
                c.want = (type(o).__name__,) + tuple(self.expected(x, w) for x, w in zip(o, c.want[1:]))

    def expected(self, x, was):
        for o, c in self.names:
            if o is x:
                return c.want
        return was

    def op_copy(self, i, how):
        i = self.pick(i)
        if i is None:
            return
        o, c = self.names[i]
        if not isinstance(o, v.LIBRARY):
            return
        sub = type(o) in (SubCircle, SubRanges)
        if how == 0 or sub:
            if isinstance(o, (s.Chunker, s.CompoundRegion) + v.PIXELIZATIONS):
                return
            f = clone
        elif how == 1:
            f = copy.copy
        elif how == 2:
            f = copy.deepcopy
        elif how == 3:
            f = lambda o: pickle.loads(pickle.dumps(o))
        else:
            f = lambda o: copy.deepcopy([o])[0]
        before = self.refs()
        res, err = self.attempt(lambda: f(o))
        what = "copying a %s" % c.kind
        if err:
            self.run.fail("not-copied", "%s raised %s" % (what, err))
        if res is o:
            self.run.fail("shared-value", "%s gives the object itself" % what)
        if not sub and not isinstance(o, (v.SubBox, v.SubPolygon)) and look_sub(res) != c.want:
            self.run.fail("not-copied", "%s gives %s for %s" % (what, look_sub(res), c.want))
        self.same_refs(before, what, len(before))
        self.run.event("copy", how, c.kind)
        self.run.state("copy", how, type(o).__name__, type(res).__name__)
        self.add(res, "copy of " + c.kind)
        return what

    def op_alias(self, i):
        i = self.pick(i)
        if i is None:
            return
        self.add(self.names[i][0])
        return "another reference"

    def op_drop(self, i):
        i = self.pick(i)
        if i is None:
            return
        kind = self.names[i][1].kind
        self.release(i)
        if self.got:
            self.run.nontrivial = True
        self.run.count("fault.reference_dropped")
        self.run.event("drop", kind)
        return "dropping a " + kind

    def holders(self, i):
        """An object inside a kept list or tuple stays alive when its own name goes."""
        o, c = self.names[i]
        if any(type(p) in (list, tuple) and any(x is o for x in p) for p, _ in self.names):
            c.ref = None

    def op_dropall(self, keep):
        for i in range(len(self.names) - 1, -1, -1):
            if i % 8 != keep:
                self.release(i)
        self.run.count("fault.many_references_dropped")
        self.run.event("dropall", keep)
        if self.got:
            self.run.nontrivial = True
        return "dropping most references"

    def op_gc(self):
        gc.collect()
        self.run.count("fault.collection")
        return "a collection"

    def op_threshold(self, n):
        """From here on the collector runs by itself, every n allocations."""
        gc.set_threshold(n, 3, 3)
        gc.enable()
        self.run.count("fault.frequent_collections")
        return "enabling the collector"

    def op_cycle(self, i):
        """An object that is part of a reference cycle goes away with it."""
        i = self.pick(i)
        if i is None:
            return
        o = SubCircle(U.X(), A(0.5))
        o.me = [o, self.names[i][0]]
        r = weakref.ref(o)
        before = sys.getrefcount(self.names[i][0])
        del o
        gc.collect()
        if r() is not None:
            self.run.fail("kept-alive", "an object of a class derived from Circle in a reference cycle is not collected")
        if sys.getrefcount(self.names[i][0]) != before - 1:
            self.run.fail("reference-count", "the attributes of a collected object were not released")
        self.run.count("fault.cycle_collected")
        self.run.event("cycle")
        return "collecting a cycle"

    def op_walk(self, i, seed):
        """Iterate over a range set or vector while changing or dropping it."""
        i = self.pick(i)
        if i is None:
            return
        o, c = self.names[i]
        if not isinstance(o, s.RangeSet):
            return
        r = random.Random(seed)
        got = []
        it = iter(o)
        for n in range(6):
            try:
                x = next(it)
            except (StopIteration, IndexError):
                break
            if type(x) is not tuple or len(x) != 2 or not all(type(k) is int and 0 <= k <= TOP for k in x):
                self.run.fail("bad-item", "iterating over a changing range set gave %r" % (x,))
            got.append(x)
            k = r.randrange(4)
            if k == 0:
                o.insert(r.randrange(100), 100 + r.randrange(100))
            elif k == 1:
                o.clear()
            elif k == 2:
                o.complement()
            elif x not in o.ranges():
                self.run.fail("bad-item", "iterating over a range set gave %r, its ranges are %r" % (x, o.ranges()))
        c.want = look_sub(o)
        self.run.event("walk", got, c.want)
        self.run.state("walk", len(got))
        self.containers()
        return "iterating over a changing range set"

    def op_fail(self, index, seed, at, how):
        """A call whose argument fails leaves no reference behind."""
        ctl = calls.Ctl()
        pool = [n[0] for n in self.names if isinstance(n[0], v.LIBRARY)]
        b = calls.build(index, seed, ctl, pool)
        if b is None or b[2] is not None:
            return
        ctl.at, ctl.sticky = at % 6, True

        def act(kind):
            raise calls.Boom("simulated")
        ctl.act = act
        n = calls.name(index)
        before = self.refs()
        try:
            res = b[0]()
            out = "ok"
        except SystemError as e:
            self.run.fail("system-error", "%s raised SystemError: %s" % (n, e))
        except BaseException as e:
            out = type(e).__name__
        res = None
        del act
        ctl.act = None
        self.same_refs(before, "a failing " + n, len(before))
        if ctl.fired:
            self.run.count("fault.call_failed")
        self.run.event("fail", n, out)
        self.run.state("fail", n, out)
        return "a failing " + n

    def op_again(self, i, g, index, seed, at):
        """The same call, over and over, on arguments made anew: nothing is left behind."""
        asan = self.run.asan
        types = v.LIBRARY
        i = self.pick(i)
        target = self.names[i][0] if i is not None else None
        gs = getters(target) if i is not None else []
        if gs and at & 1:
            what, f = gs[g % len(gs)]
            what += " of a " + self.names[i][1].kind

            def once():
                try:
                    f(target)
                except Exception:
                    pass
        else:
            what = "a call of " + calls.name(index)

            def boom(kind):
                raise calls.Boom("simulated")

            def once():
                ctl = calls.Ctl()
                b = calls.build(index, seed, ctl, [])
                if b is None:
                    return
                ctl.at, ctl.sticky, ctl.act = (at // 4) % 9 if at & 2 else -1, True, boom
                try:
                    b[0]()
                except Exception:
                    pass
                ctl.act = None
        stages, reps = 3, 12
        mem, refs, live = (array.array("q", [0] * (stages + 1)) for _ in range(3))
        for n in range(stages + 1):
            for _ in range(reps if n else 3):
                once()
            gc.collect()
            sys._clear_type_cache()
            live[n] = self.run.native.live()
            refs[n] = sum(map(sys.getrefcount, types))
            mem[n] = asan()
        for kind, x, least in (("objects allocated by the library", live, 1), ("references to the library's classes", refs, reps), ("bytes of the process", mem, 8 * reps)):
            d = [b - a for a, b in zip(x, x[1:])]
            if min(d) >= least:
                self.run.fail("leak", "%s, repeated, leaves %s behind: growth %r in %d calls" % (what, kind, d, reps))
        self.run.count("probe.repeated_calls")
        self.run.event("again", what)
        self.run.state("again", what)
        return "repeating " + what

    def op_array(self, i, seed):
        """Array arguments are left alone, result arrays belong to the caller."""
        i = self.pick(i)
        if i is None:
            return
        o, c = self.names[i]
        if not isinstance(o, s.Region):
            return
        r = random.Random(seed)
        xs = [np.array([r.uniform(-1, 1) for _ in range(4)]) for _ in range(3)]
        keep = [x.copy() for x in xs]
        rc = [sys.getrefcount(x) for x in xs]
        res = o.contains(*xs)
        res2 = o.contains(*xs)
        if any((x != k).any() for x, k in zip(xs, keep)):
            self.run.fail("argument-changed", "contains() changed its argument arrays")
        if [sys.getrefcount(x) for x in xs] != rc:
            self.run.fail("reference-count", "contains() changed the reference count of its arrays")
        was = res2.tolist()
        res[:] = ~res
        if res2.tolist() != was or np.shares_memory(res, res2):
            self.run.fail("shared-value", "two results of contains() share memory")
        self.run.event("array", was)
        del xs, res
        self.add(res2, "array")
        return "contains() of arrays"

    def op_edit(self, i, how):
        """Change a list obtained from an object; the object does not notice."""
        i = self.pick(i)
        if i is None:
            return
        o, c = self.names[i]
        if type(o) is not list:
            for k, (o, c) in enumerate(self.names):
                if type(o) is list:
                    break
            else:
                return
        if how % 4 == 0:
            o.clear()
        elif how % 4 == 1:
            o.append(None)
        elif how % 4 == 2:
            o.reverse()
        elif o:
            o[0] = 7
        c.want = look_sub(o)
        self.containers()
        self.run.event("edit", how % 4)
        self.run.count("fault.list_edited")
        return "editing a list from " + c.kind

    def op_temporary(self, k, seed, g):
        """A value obtained from an object that goes away in the same expression."""
        name = NAMES[k % len(NAMES)]
        o = KINDS[name](random.Random(seed))
        gs = getters(o)
        if not gs:
            return
        gname, f = gs[g % len(gs)]
        kept, err = self.attempt(lambda: look_sub(f(o)))
        del o, gs
        res, err2 = self.attempt(lambda: f(KINDS[name](random.Random(seed))))
        junk = [KINDS[name](random.Random(seed + 1)) for _ in range(2)]
        if err != err2 or (not err and look_sub(res) != kept):
            self.run.fail("value-changed", "%s of a temporary %s is %s, of a named one %s" % (gname, name, err2 or look_sub(res), err or kept))
        del junk
        self.run.event("temporary", name, gname, kept if not err else err)
        self.run.state("temporary", name, gname)
        if not err:
            self.keep(res, 2, "%s of a temporary %s" % (gname, name))
        self.got = True
        return "a temporary " + name


OPS = {n[3:]: f for n, f in vars(History).items() if n.startswith("op_")}
