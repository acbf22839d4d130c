"""C04, Python side: histories of operations on range sets made through the Python
bindings, some of them failing, against a model of intervals of integers."""
import copy, pickle, random

import lsst.sphgeom as s
import calls

END = 2 ** 64
SLOTS = 4


# ---- the model: a sorted list of disjoint, non-adjacent (a, b), 0 <= a < b <= 2^64 ----

def norm(items):
    out = []
    for a, b in sorted(x for x in items if x[0] < x[1]):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def span(a, b):
    """The integers from a up to b, going past 2^64 when b <= a."""
    return [(a, b)] if a < b else norm([(a, END), (0, b)])


def inv(x):
    out, at = [], 0
    for a, b in x:
        if at < a:
            out.append((at, a))
        at = b
    if at < END:
        out.append((at, END))
    return out


def meet(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            if max(a, c) < min(b, d):
                out.append((max(a, c), min(b, d)))
    return norm(out)


def join(x, y):
    return norm(x + y)


def minus(x, y):
    return meet(x, inv(y))


def xor(x, y):
    return join(minus(x, y), minus(y, x))


def scale(x, k):
    return norm([(min(END, a * k), min(END, b * k)) for a, b in x])


def coarse(x, n):
    if n >= 64:
        return [(0, END)] if x else []
    return norm([(a >> n << n, ((b - 1 >> n) + 1) << n) for a, b in x])


def value(r):
    k = r.randrange(10)
    if k < 5:
        return r.randrange(40)
    if k < 7:
        return r.choice([0, 1, END - 1, END - 2, 2 ** 63, 2 ** 63 - 1, 2 ** 32, 2 ** 32 - 1, 2 ** 53, 2 ** 53 + 1])
    if k < 8:
        return END - 1 - r.randrange(40)
    if k < 9:
        return 1 << r.randrange(64)
    return r.randrange(END)


class World:
    step_budget = 3_000_000_000
    rule = "a run is non-trivial when a set with at least two ranges took part in an operation after at least one other failed or changed it"
    real = "the library and its Python bindings"
    stub = "the iterables and integers given to it, which may raise"
    state_measure = "distinct (operation, shapes of the operands, shape of the result) tuples"
    KINDS = ["new", "insert", "insert", "insert", "insert", "erase", "erase", "op", "op", "op", "iop", "iop", "method", "complement", "scale", "scale", "simplify", "clear", "fill", "copy", "fail", "fail", "query"]

    def start(self):
        pass

    def finish(self):
        pass

    def generate(self, r, thorough):
        plan = []
        for _ in range(r.randrange(10, 60 if not thorough else 150)):
            plan.append((r.choice(self.KINDS), r.randrange(SLOTS), r.randrange(SLOTS), r.randrange(SLOTS), r.randrange(1 << 20)))
        return plan

    def execute(self, plan, run):
        S = [s.RangeSet() for _ in range(SLOTS)]
        M = [[] for _ in range(SLOTS)]
        touched = False
        for k, d, a, b, seed in plan:
            run.simtime += 1
            r = random.Random(seed)
            D, A, B = S[d], S[a], S[b]
            shape = (len(M[d]), len(M[a]), len(M[b]))
            if touched and max(shape) > 1:
                run.nontrivial = True
            x, y = value(r), value(r)
            keep = None
            if k == "new":
                how = r.randrange(7)
                items = [(value(r), value(r)) if r.randrange(2) else value(r) for _ in range(r.randrange(6))]
                if how == 0:
                    S[d], M[d] = s.RangeSet(x), span(x, (x + 1) % END)
                elif how == 1:
                    S[d], M[d] = s.RangeSet(x, y), span(x, y)
                elif how == 2:
                    S[d], M[d] = s.RangeSet(A), M[a]
                elif how == 3:
                    S[d], M[d] = s.RangeSet(A.ranges()), M[a]
                elif how == 4:
                    S[d], M[d] = s.RangeSet(iter(A)), M[a]
                else:
                    S[d] = s.RangeSet(items if how == 5 else (i for i in items))
                    M[d] = []
                    for i in items:
                        M[d] = join(M[d], span(*i) if type(i) is tuple else span(i, (i + 1) % END))
            elif k == "insert" or k == "erase":
                f = join if k == "insert" else minus
                if r.randrange(3):
                    keep = getattr(D, k)(x, y)
                    M[d] = f(M[d], span(x, y))
                else:
                    keep = getattr(D, k)(x)
                    M[d] = f(M[d], span(x, (x + 1) % END))
                if keep is not None:
                    run.fail("wrong-result", "%s() returned %r" % (k, keep))
            elif k == "op":
                how = r.randrange(5)
                f = [lambda: A & B, lambda: A | B, lambda: A - B, lambda: A ^ B, lambda: ~A][how]
                S[d] = f()
                M[d] = inv(M[a]) if how == 4 else [meet, join, minus, xor][how](M[a], M[b])
            elif k == "iop":
                how = r.randrange(4)
                T = D
                if how == 0:
                    T &= A
                elif how == 1:
                    T |= A
                elif how == 2:
                    T -= A
                else:
                    T ^= A
                if T is not D:
                    run.fail("identity", "an in-place operator made another object")
                M[d] = [meet, join, minus, xor][how](M[d], M[a])
            elif k == "method":
                how = r.randrange(5)
                S[d] = [lambda: A.intersection(B), lambda: A.union(B), lambda: A.difference(B), lambda: A.symmetricDifference(B), lambda: A.complemented()][how]()
                M[d] = inv(M[a]) if how == 4 else [meet, join, minus, xor][how](M[a], M[b])
            elif k == "complement":
                if D.complement() is not D:
                    run.fail("identity", "complement() made another object")
                M[d] = inv(M[d])
            elif k == "scale":
                n = r.choice([0, 1, 2, 3, 4, 16, 2 ** 32, END - 1, value(r)])
                if r.randrange(2):
                    if D.scale(n) is not D:
                        run.fail("identity", "scale() made another object")
                    M[d] = scale(M[d], n)
                else:
                    S[d], M[d] = A.scaled(n), scale(M[a], n)
            elif k == "simplify":
                n = r.choice([0, 1, 2, 3, 5, 31, 32, 33, 63, 64, 65, 200, 2 ** 32 - 1])
                if r.randrange(2):
                    if D.simplify(n) is not D:
                        run.fail("identity", "simplify() made another object")
                    M[d] = coarse(M[d], n)
                else:
                    S[d], M[d] = A.simplified(n), coarse(M[a], n)
            elif k == "clear":
                D.clear()
                M[d] = []
            elif k == "fill":
                D.fill()
                M[d] = [(0, END)]
            elif k == "copy":
                how = r.randrange(6)
                S[d] = [lambda: copy.copy(A), lambda: copy.deepcopy(A), lambda: pickle.loads(pickle.dumps(A, r.randrange(6))), lambda: eval(repr(A), {"RangeSet": s.RangeSet}), lambda: s.RangeSet(eval(str(A))), lambda: A | A][how]()
                M[d] = M[a]
                if S[d] is A:
                    run.fail("identity", "a copy is the object itself")
            elif k == "fail":
                self.failing(r, run, D, A)
            else:
                pass
            touched = touched or k not in ("query", "copy", "new")
            run.count("op." + k)
            run.state(k, shape, len(M[d]))
            for i in range(SLOTS):
                self.same(run, S[i], M[i], "%s: set %d" % (k, i))
            self.query(run, r, S[d], M[d], S[a], M[a])
            run.event(k, d, a, b, seed, M[d])

    @staticmethod
    def failing(r, run, D, A):
        """An operation that raises, in whatever it does, leaves its target alone."""
        ctl = calls.Ctl()
        ctl.at = 0

        def act(kind):
            raise calls.Boom("simulated")
        ctl.act = ctl.act or act
        ctl.sticky = True
        bad = calls.Idx(3, ctl)
        f = r.choice([lambda: D.insert(3, bad), lambda: D.insert(bad), lambda: D.erase(bad, 4), lambda: D.insert(-1), lambda: D.insert(END), lambda: D.insert(3, None), lambda: D.erase("a"), lambda: D.scale(-1), lambda: D.scale(bad),
                      lambda: D.simplify(-1), lambda: D.simplify(bad), lambda: D.__iand__(3), lambda: D.__ior__(None), lambda: D.__ixor__([1]), lambda: s.RangeSet([1, bad]), lambda: s.RangeSet([1, None]), lambda: s.RangeSet([(1, 2), (3,)]),
                      lambda: A - 3, lambda: A & None, lambda: D.insert(1.5, 3), lambda: D.erase(2 ** 70, 1)])
        try:
            res = f()
        except SystemError as e:
            run.fail("system-error", "SystemError: %s" % e)
        except (calls.Boom, TypeError, ValueError, IndexError, OverflowError):
            run.count("fault.failed_operation")
            return
        if res is not NotImplemented:
            run.fail("bad-item-accepted", "a wrong argument was accepted: %r" % (res,))
        run.count("fault.refused_operand")

    @staticmethod
    def same(run, o, m, what):
        want = [(a, b % END) for a, b in m]
        got = o.ranges()
        if got != want:
            run.fail("wrong-elements", "%s holds %s, its history defines %s" % (what, str(got)[:600], str(want)[:600]))
        card = sum(b - a for a, b in m) % END
        facts = [("len", len(o), len(m)), ("size", o.size(), len(m)), ("empty", o.empty(), not m), ("full", o.full(), m == [(0, END)]), ("isValid", o.isValid(), True), ("cardinality", o.cardinality(), card)]
        for n, g, w in facts:
            if g != w or type(g) is not type(w):
                run.fail("wrong-answer", "%s: %s is %r, should be %r for %s" % (what, n, g, w, str(want)[:400]))

    @staticmethod
    def query(run, r, o, m, p, q):
        want = [(a, b % END) for a, b in m]
        facts = [("list", list(o), want), ("repr", repr(o), "RangeSet(%r)" % (want,)), ("str", str(o), repr(want)), ("==", o == p, m == q), ("!=", o != p, m != q), ("== itself", o == o, True),
                 ("contains set", o.contains(p), not minus(q, m)), ("in set", p in o, not minus(q, m)), ("intersects set", o.intersects(p), bool(meet(m, q))), ("isWithin set", o.isWithin(p), not minus(m, q)),
                 ("isDisjointFrom set", o.isDisjointFrom(p), not meet(m, q)), ("complement", (~o).ranges(), [(a, b % END) for a, b in inv(m)])]
        for i in range(-len(m) - 1, len(m) + 1):
            try:
                g = o[i]
            except IndexError:
                g = None
            facts.append(("[%d]" % i, g, want[i] if -len(m) <= i < len(m) else None))
            if len(facts) > 40:
                break
        pts = [value(r) for _ in range(4)]
        for a, b in m[:4]:
            pts += [a, b % END, (a - 1) % END, b - 1]
        for x in pts:
            one = span(x, (x + 1) % END)
            facts += [("contains(%d)" % x, o.contains(x), not minus(one, m)), ("%d in" % x, x in o, not minus(one, m)), ("intersects(%d)" % x, o.intersects(x), bool(meet(one, m))),
                      ("isWithin(%d)" % x, o.isWithin(x), not minus(m, one)), ("isDisjointFrom(%d)" % x, o.isDisjointFrom(x), not meet(m, one))]
            y = r.choice(pts)
            t = span(x, y)
            facts += [("contains(%d, %d)" % (x, y), o.contains(x, y), not minus(t, m)), ("intersects(%d, %d)" % (x, y), o.intersects(x, y), bool(meet(t, m))), ("isWithin(%d, %d)" % (x, y), o.isWithin(x, y), not minus(m, t)),
                      ("isDisjointFrom(%d, %d)" % (x, y), o.isDisjointFrom(x, y), not meet(m, t))]
        for n, g, w in facts:
            if g != w:
                run.fail("wrong-answer", "%s is %s, should be %s, for %s (other set: %s)" % (n, str(g)[:300], str(w)[:300], str(want)[:400], str(q)[:300]))
