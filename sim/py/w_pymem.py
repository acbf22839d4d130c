"""C05, C06 and C07, Python side: calls made through the package while memory
runs out in the library, or in a package that its Python modules call."""
import copy, gc, pickle, random, sys

import yaml
import lsst.sphgeom as s
import asks, calls, faulty
import values as v
import w_transport

# pybind11 does not survive the failure of an allocation of its own; those it
# makes to hand out an object all have this size.
SPARE = 24
# What a failed call may raise: pybind11 takes a failed conversion of an argument
# for an argument of a wrong type.
REPORTS = ("MemoryError", "TypeError")
u64, span = v.u64, lambda r: sorted((v.u64(r), v.u64(r)))


def vectorised(f):
    """A call that goes through pybind11's conversion of arrays, which loses a block when it fails."""
    f.vectorised = True
    return f


# ---- C05: each gives (call, objects that a failed call leaves as they were) ----

def t_algebra(o, p, r):
    a, b = [x if type(x) is s.RangeSet else v.rangeset(r) for x in (o, p)]
    k = r.randrange(16)
    if k < 4:
        f = [lambda: a | b, lambda: a & b, lambda: a - b, lambda: a ^ b][k]
    elif k < 8:
        f = [a.union, a.intersection, a.difference, a.symmetricDifference][k - 4]
        f = lambda f=f: f(b)
    elif k < 12:
        a = copy.copy(a)
        f = [a.__ior__, a.__iand__, a.__isub__, a.__ixor__][k - 8]
        b = a if r.randrange(4) == 0 else b
        f = lambda f=f: [f(b), a]
    else:
        f = [lambda: ~a, a.complemented, lambda: [a == b, a != b], lambda: [a.contains(b), a.intersects(b), a.isWithin(b), a.isDisjointFrom(b), b in a]][k - 12]
    return f, (a, b)


def t_change(o, p, r):
    a = copy.copy(o) if type(o) is s.RangeSet else v.rangeset(r)
    k, (x, y), n = r.randrange(9), span(r), r.choice([0, 1, 2, 3, 10, 33, 63])
    f = [lambda: a.insert(x), lambda: a.insert(x, y), lambda: a.insert(y, x), lambda: a.erase(x), lambda: a.erase(x, y), lambda: a.erase(y, x),
         lambda: a.simplify(n), lambda: a.scale(n), lambda: [a.complement(), a.simplified(n), a.scaled(n)]][k]
    return lambda: [f(), a], (a,) if k < 8 else ()


def t_new(o, p, r):
    items = [tuple(span(r)) if r.randrange(2) else u64(r) for _ in range(r.choice([0, 1, 3, 8, 40]))]
    a = o if type(o) is s.RangeSet else v.rangeset(r)
    t = pickle.dumps(a)
    return [lambda: s.RangeSet(items), lambda: s.RangeSet(tuple(items)), lambda: s.RangeSet(a), lambda: s.RangeSet(*span(r)), lambda: s.RangeSet(iter(items)),
            lambda: copy.copy(a), lambda: pickle.loads(t), lambda: a.ranges(), lambda: [list(a.ranges()), repr(a), str(a)], lambda: [a[i] for i in range(len(a))]][r.randrange(10)], (a, items)


# ---- C06 ----

def t_relate(o, p, r):
    x, y = asks.region(o, r), asks.region(p, r)
    k, u = r.randrange(8), v.unit(r)
    return [lambda: x.relate(y), lambda: [x.getBoundingBox(), x.getBoundingBox3d(), x.getBoundingCircle()], lambda: x.contains(u), x.clone,
            vectorised(lambda: x.contains([u.x()] * 3, [u.y()] * 3, [u.z()] * 3)), vectorised(lambda: x.overlaps(y) if hasattr(x, "overlaps") else x.contains([1.0], [0.5])),
            lambda: [s.UnionRegion(x, y), s.IntersectionRegion(y, x)], lambda: s.Region.getRegions(x)][k], (x, y)


def t_bytes(o, p, r):
    x, y = asks.region(o, r), asks.region(p, r)
    b = x.encode()
    t, h = pickle.dumps([x, y, x], r.choice([2, 4])), b[:r.randrange(len(b) + 1)]
    w = yaml.dump(x)
    return [lambda: x.encode(), lambda: s.Region.decode(b), lambda: pickle.loads(t), lambda: pickle.dumps(x), lambda: copy.copy(x), lambda: copy.deepcopy([x, y]),
            lambda: yaml.dump([x, y]), lambda: yaml.load(w, Loader=yaml.SafeLoader), lambda: type(x).decode(b), lambda: asks.s.Region.decode(h)][r.randrange(10)], (x, y)


def t_build(o, p, r):
    u = [v.unit(r) for _ in range(r.choice([3, 4, 8, 30]))]
    x, a, d = asks.region(o, r), v.A(v.small(r)), v.lonlat(r)
    g = v.ring(r, r.choice([3, 5, 20]))
    m = [lambda: s.ConvexPolygon.convexHull(u), lambda: s.ConvexPolygon(g), lambda: s.ConvexPolygon(u), lambda: s.Circle(u[0], a), lambda: s.Box(d, a, a), lambda: s.Ellipse(u[0], u[1], a),
         lambda: type(x)(x), lambda: x.dilatedBy(a), lambda: x.erodedBy(a), lambda: x.complemented(), lambda: x.expandedTo(x), lambda: x.clippedTo(x), lambda: x.getVertices(), lambda: [x.rotate(a), x.cloneOperand(0), x.nOperands()],
         lambda: [x.cloneOperand(1), x.cloneOperand(0)], lambda: s.ConvexPolygon(*u[:3])]
    return r.choice(m), (x, u, g)


def t_text(o, p, r):
    x = asks.region(o, r)
    c = [r.choice([0, 10, 45.5, 120, 359]), r.choice([-80, -1, 0, 30, 60]), r.choice([0.1, 5, 40])]
    t = "CIRCLE %s %s %s" % tuple(c)
    if r.randrange(2):
        t = "RANGE %s %s %s %s" % (c[0], r.choice([c[0] + c[2], "+Inf"]), r.choice([c[1], "-Inf"]), c[1] + 5)
    if r.randrange(3) == 0:
        t = "POLYGON " + " ".join("%s %s" % (c[0] + a, c[1] + b) for a, b in ((0, 0), (5, 0), (5, 5), (0, 5)))
    return r.choice([lambda: s.Region.from_ivoa_pos(t), lambda: s.Region.from_ivoa_pos(t), lambda: x.to_ivoa_pos(), lambda: [repr(x), str(x)]]), (x,)


# ---- C07 ----

def t_overlap(o, p, r):
    z, g = asks.pixelization(o, r), asks.region(p, r)
    n, m = r.choice([0, 0, 0, 1, 5, 40]), r.choice(["envelope", "interior"])
    if isinstance(z, s.HealpixPixelization):
        return vectorised(lambda: getattr(z, m)(g)), (z, g)
    return (lambda: getattr(z, m)(g, n)) if n else (lambda: getattr(z, m)(g)), (z, g)


def t_pixel(o, p, r):
    z, d = asks.pixelization(o, r), v.unit(r)
    a, b = z.universe().ranges()[0]
    i = r.randrange(a, b)
    l, t = r.randrange(12), pickle.dumps(z)
    w = yaml.dump([z])
    return r.choice([z.universe, lambda: z.pixel(i), lambda: z.pixel(i), lambda: z.toString(i), lambda: int(z.index(d)), lambda: repr(z), lambda: z.getLevel(), lambda: type(z)(l), lambda: z == type(z)(l),
                     lambda: pickle.loads(t), lambda: yaml.load(w, Loader=yaml.SafeLoader), lambda: s.HtmPixelization.triangle(8 | i & 7), lambda: s.Mq3cPixelization.quad(10 | i & 1), lambda: s.HtmPixelization.asString(8 << 8)]), (z,)


def t_chunks(o, p, r):
    z, g = o if type(o) is s.Chunker and o.numStripes < 25 else s.Chunker(r.randrange(1, 20), r.randrange(1, 5)), asks.region(p, r)
    k = r.choice(z.getAllChunks())
    n, t = r.randrange(1, 90), pickle.dumps(z)
    return r.choice([z.getAllChunks, lambda: z.getChunksIntersecting(g), lambda: z.getChunksIntersecting(g), lambda: z.getSubChunksIntersecting(g if z.numStripes * z.numSubStripesPerStripe < 20 else v.circle(random.Random(n))),
                     lambda: z.getAllSubChunks(k), lambda: z.getChunkBoundingBox(z.getStripe(k), 0), lambda: s.Chunker(n, 3), lambda: pickle.loads(t), lambda: repr(z)]), (z, g)


TASKS = {"C05": [t_algebra, t_algebra, t_change, t_change, t_new], "C06": [t_relate, t_bytes, t_bytes, t_build, t_build, t_text], "C07": [t_overlap, t_overlap, t_pixel, t_chunks]}
PARTS = {"C05": [4], "C06": [2, 2, 3], "C07": [0, 0, 0, 1, 1, 2, 3, 5]}


class World:
    step_budget = 6_000_000_000
    rule = "a run is non-trivial when memory ran out inside at least one call"
    real = "the library, its Python bindings and its Python modules, pickle, yaml, hpgeom, numpy"
    stub = "operator new of the library and of its bindings, and the calls of numpy, hpgeom and library classes made by the package's Python modules, all of which fail on command"
    state_measure = "distinct (task, what fails, number of places where it may fail, outcome) tuples"

    def __init__(self, prop):
        self.prop = prop

    def start(self):
        # (pybind11's table of objects does not have to grow later)
        x = [s.Angle(0.0) for _ in range(20000)]
        del x

    def finish(self):
        pass

    def generate(self, r, thorough):
        n = r.choice([2, 3])
        plan = [("part", i, r.choice(PARTS[self.prop]), r.randrange(1 << 20)) for i in range(n)]
        for _ in range(r.randrange(3, 10 if not thorough else 30)):
            plan.append(("try", r.randrange(n), r.randrange(n), r.randrange(len(TASKS[self.prop])), r.randrange(1 << 20), r.choice([0, 0, 2, 3]), r.randrange(1 << 16)))
        return plan

    def execute(self, plan, run):
        self.run, self.calls, self.at, self.lasting = run, 0, -1, False
        faulty.install(self.called, True)
        objs, said = {}, {}
        for op in plan:
            if op[0] == "part":
                objs[op[1]] = asks.make((("part", op[2], op[3]),))
                said[op[1]] = v.answers(objs[op[1]])
            elif op[0] == "try" and op[1] in objs and op[2] in objs:
                self.attempts(objs[op[1]], objs[op[2]], TASKS[self.prop][op[3]], op[4], op[5] == 3, op[5] >> 1, random.Random(op[6]))
                run.simtime += 1
        for i, o in objs.items():
            if v.answers(o) != said[i]:
                run.fail("answers-changed", "after failed calls, %s no longer answers %s but %s" % (str(v.look(o))[:300], said[i][:600], v.answers(o)[:600]))

    def called(self, name):
        self.calls += 1
        if self.at >= 0:
            self.at -= 1
            if self.at < 0:
                if self.lasting:
                    self.at = 0
                self.run.count("fault.call")
                self.fired += 1
                raise MemoryError("simulated")

    def attempts(self, o, p, task, seed, lasting, python, r):
        """One call, fault-free and then again and again with something failing."""
        run, native = self.run, self.run.native
        name = task.__name__[2:]
        whole = v.look(o), v.look(p)

        def once(k):
            """(outcome, how many places, did one fail)"""
            gc.collect(0)
            live = native.live()
            f, watch = task(o, p, random.Random(seed))
            before = v.look(watch)
            self.calls = self.fired = 0
            n, i = native.allocs(), native.injected()
            x = None
            try:
                if python:
                    self.at, self.lasting = k, lasting
                else:
                    native.exhaust(k, SPARE)
                try:
                    x = f()
                finally:
                    native.track(0, -1)
                    self.at = -1
                out = v.look(x)
            except Exception as e:
                out = type(e).__name__
                while e is not None and not isinstance(e, MemoryError):
                    e = e.__cause__ or e.__context__
                if e is not None:
                    out = "MemoryError"
                e = None
                if v.look(watch) != before:
                    run.fail("object-changed", "%s (seed %d) failed (%s, place %d) and changed %s to %s" % (name, seed, out, k, str(before)[:400], str(v.look(watch))[:400]))
            n = self.calls if python else native.allocs() - n
            fired = self.fired if python else native.injected() - i
            if fired and not python and hasattr(f, "vectorised"):
                live = None
            del f, watch, x
            gc.collect(0)
            if (v.look(o), v.look(p)) != whole:
                run.fail("operand-changed", "%s (seed %d, place %d) changed an object it only reads: %s became %s" % (name, seed, k, str(whole)[:400], str((v.look(o), v.look(p)))[:400]))
            return out, n, fired, 0 if live is None else native.live() - live

        want, n, _, _ = once(-1)
        again, n, _, grown = once(-1)
        if again != want:
            run.fail("not-repeatable", "%s (seed %d) gives %s and then %s" % (name, seed, str(want)[:400], str(again)[:400]))
        if grown:
            run.fail("leak", "%s (seed %d) leaks %d blocks" % (name, seed, grown))
        run.event(name, seed, n, want)
        if want == "MemoryError" or not n:
            return
        if want == "TypeError" and not python:
            return          # (pybind11 dies when it cannot build its message)
        ks = list(range(n)) if n <= 8 else sorted({0, 1, n - 1, n - 2} | {r.randrange(n) for _ in range(4)})
        for k in ks:
            got, _, fired, grown = once(k)
            if not fired:
                continue
            run.nontrivial = True
            if not python:
                run.count("fault.allocation")
            run.event(" ", k, got)
            run.state(name, lasting, python, n, got == want)
            if got != want and got not in REPORTS:
                run.fail("wrong-result", "%s (seed %d, objects %s and %s) gives %s, and %s when %s %d of %d fails" %
                         (name, seed, str(whole[0])[:300], str(whole[1])[:300], str(want)[:300], str(got)[:300], "call" if python else "allocation", k, n))
            if grown:
                again = once(k)[3]
                if again:
                    run.fail("leak", "%s (seed %d) leaks %d blocks when %s %d of %d fails" % (name, seed, again, "call" if python else "allocation", k, n))
        if once(-1)[0] != want:
            run.fail("retry-differs", "%s (seed %d) no longer gives %s after failed attempts" % (name, seed, str(want)[:300]))
