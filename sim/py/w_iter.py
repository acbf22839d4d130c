"""C13: iterables, sequences, numbers and strings that raise, lie, change or yield
bad items at a chosen point of a library call."""
import gc, random, sys

import numpy as np
import lsst.sphgeom as s
import values as v
import calls
from calls import Boom, BoomBase, Ctl

TOP = 2 ** 64
SOFT = ("hint", "array", "len")       # hooks whose failure Python itself lets a consumer ignore
RETRIED = ("float", "index", "iter")  # pybind11 tries a conversion twice, so a failure that goes away may go unnoticed
ORDINARY = (TypeError, ValueError, IndexError, OverflowError)
CAST = {"setstate": (RuntimeError,), "contains": (RuntimeError,), "contains_broadcast": (RuntimeError,), "chunker": (RuntimeError,)}  # how cast_error, vectorize and the Chunker constructor report bad numbers
RAISES = [Boom, KeyError, MemoryError, BoomBase, KeyboardInterrupt, ZeroDivisionError, TypeError, ValueError, OverflowError, RuntimeError, AttributeError, SystemExit]
KINDS = [v.NAMES.index(k) for k in ("rangeset", "rangeset", "rangeset", "angle", "vector", "interval", "box3d", "polygon", "circle", "box", "unit", "normalized", "matrix")]


def bad_values(r):
    return r.choice([None, "x", "ab", -1, TOP, TOP * 3, 1.5, float("nan"), object(), (), (1,), (1, 2, 3), [None, 3], (3, None), (-1, 4), b"ab", b"abc", s.UnitVector3d.X(), s.Angle(1.0), s.RangeSet(3, 8), {}, [1, [2]], np.array([1.5, 2.5]), np.array(None), True, 7])


class World:
    step_budget = 3_000_000_000
    rule = "a run is non-trivial when user code misbehaved inside at least one library call"
    real = "the library, its Python bindings, pybind11's argument conversion, CPython, numpy, hpgeom"
    stub = "the callers' iterables, sequences, numbers and strings"
    state_measure = "distinct (call, hook that misbehaved, kind of misbehaviour, outcome) tuples"

    def start(self):
        pass

    def finish(self):
        pass

    def generate(self, r, thorough):
        plan = [("new", r.choice(KINDS), r.randrange(1 << 20)) for _ in range(r.randrange(3, 7))]
        for _ in range(r.randrange(10, 40 if not thorough else 80)):
            k = r.randrange(12)
            if k == 0:
                plan.append(("new", r.choice(KINDS), r.randrange(1 << 20)))
            elif k == 1:
                plan.append(("gc",))
            else:
                plan.append(("call", r.randrange(len(calls.CALLS)), r.randrange(1 << 20), r.randrange(1 << 10), r.randrange(10), r.randrange(1 << 16)))
        return plan

    def execute(self, plan, run):
        pool, want = [], []

        def check(what):
            for i, o in enumerate(pool):
                if v.look(o) != want[i]:
                    run.fail("object-changed", "%s changed an existing object from %s to %s" % (what, want[i], v.look(o)))
                if type(o) is s.RangeSet and not o.isValid():
                    run.fail("invalid-rangeset", "after %s an existing range set is invalid: %r" % (what, o))

        for op in plan:
            run.simtime += 1
            if op[0] == "new":
                pool.append(v.make(op[1], op[2]))
                want.append(v.look(pool[-1]))
                run.event("new", want[-1])
            elif op[0] == "gc":
                gc.collect()
                check("a garbage collection")
            else:
                self.call(op, pool, want, run, check)

    def restore(self, pool, want, target, backup):
        """Undo the effect of a successful call on its target."""
        i = next(i for i, o in enumerate(pool) if o is target)
        pool[i] = backup
        want[i] = v.look(backup)

    def attempt(self, index, seed, pool, ctl, run, what):
        """(outcome, look of the result, exception type, expected)"""
        b = calls.build(index, seed, ctl, pool)
        if b is None:
            return None
        call, expect, target = b
        try:
            res = call()
        except SystemError as e:
            run.fail("system-error", "%s raised SystemError: %s" % (what, e))
        except BaseException as e:
            out = ("raised", type(e), expect, target)
        else:
            if res is NotImplemented:       # how an operator method refuses its operand
                return ("raised", TypeError, expect, target)
            out = ("ok", v.look(res), expect, target)
            if isinstance(res, v.LIBRARY) and not isinstance(res, (v.V, s.Matrix3d)):
                out += (v.answers(res, False),)     # whatever was accepted can be used
            if type(res) is s.RangeSet and not res.isValid():
                run.fail("invalid-rangeset", "%s returned an invalid range set %r" % (what, res))
        if sys.exc_info()[0] is not None:
            run.fail("exception-left-behind", "%s left an exception set" % what)
        return out

    def call(self, op, pool, want, run, check):
        index, seed, at, mode, how = op[1:]
        name = calls.name(index)
        r = random.Random(how * 131 + seed)
        # 1. What the call does when its input behaves, on copies of the pool.
        ctl = Ctl()
        twin = [self.clone(o) for o in pool]
        ref = self.attempt(index, seed, twin, ctl, run, name)
        if ref is None:
            return
        self.judge_healthy(ref, name, run)
        run.count("op." + name)
        target_after = v.look(ref[3]) if ref[3] is not None else None
        # 2. The same call on the pool, misbehaving at one point.
        if ctl.hits:
            c2 = Ctl()
            c2.at = at % ctl.hits
            side, soft = [], SOFT
            if mode < 5:
                exc = RAISES[how % len(RAISES)]
                kind = "raise"

                c2.sticky = mode < 3
                soft = SOFT if c2.sticky else SOFT + RETRIED

                def act(k):
                    raise exc("simulated")
            elif mode < 8:
                bad = bad_values(r)
                kind = "bad_value"

                def act(k):
                    return (bad,)
            else:
                kind = "side_effect"
                act = self.side_effect(r, pool, want, side, run, c2)
            c2.act = act
            got = self.attempt(index, seed, pool, c2, run, "%s with a %s in %s" % (name, kind, ctl.kinds[c2.at]))
            if c2.fired:
                run.nontrivial = True
                run.count("fault.%s_in_%s" % (kind, c2.kinds[c2.at]))
            hook = c2.kinds[c2.at] if c2.fired else "none"
            what = "%s with a %s in %s (call %d)" % (name, kind, hook, c2.at)
            for f in side:
                f()
            if got[0] == "ok" and got[3] is not None:
                i = next(i for i, o in enumerate(pool) if o is got[3])
                want[i] = v.look(pool[i])
                if kind != "bad_value" and not side and want[i] != target_after and hook not in soft:
                    if c2.fired and kind == "raise":
                        run.fail("exception-lost", "%s: user code raised %s, the call returned %s" % (what, exc.__name__, got[1]))
                    run.fail("differs-from-healthy", "%s left %s, healthy input leaves %s" % (what, want[i], target_after))
            check(what)
            if c2.fired and kind == "raise":
                if got[0] == "ok":
                    if hook not in soft:
                        run.fail("exception-lost", "%s: user code raised %s, the call returned %s" % (what, exc.__name__, got[1]))
                    elif ref[0] == "ok" and got[1] != ref[1]:
                        run.fail("differs-from-healthy", "%s returned %s, healthy input %s" % (what, got[1], ref[1]))
                elif not issubclass(got[1], exc) and not issubclass(got[1], (TypeError, ValueError, IndexError) + CAST.get(name, ())) and got[:2] != ref[:2]:
                    run.fail("wrong-exception", "%s: user code raised %s, the call raised %s" % (what, exc.__name__, got[1].__name__))
            elif c2.fired and kind == "bad_value":
                if got[0] == "raised" and not issubclass(got[1], ORDINARY + CAST.get(name, ())) and got[:2] != ref[:2]:
                    run.fail("wrong-exception", "%s: a bad item %r made the call raise %s" % (what, type(bad).__name__, got[1].__name__))
                self.judge_bad(name, index, seed, pool, c2, bad, got, run, what)
            elif kind == "side_effect" and got[0] == "raised" and ref[0] == "ok" and not issubclass(got[1], ORDINARY + CAST.get(name, ())):
                run.fail("wrong-exception", "%s raised %s" % (what, got[1].__name__))
            run.event("call", name, kind, hook, c2.at, got[0], got[1] if got[0] == "ok" else got[1].__name__)
            run.state(name, hook, kind, got[0] if got[0] == "ok" else got[1].__name__)
        # 3. The same call with healthy input works as if nothing had happened.
        c3 = Ctl()
        twin2 = [self.clone(o) for o in pool]
        again = self.attempt(index, seed, twin2, c3, run, name + " repeated")
        if again is not None and not (ctl.hits and (mode >= 8 or got[3] is not None)):
            a = again[:2]
            b = ref[:2]
            if a != b:
                run.fail("not-repeatable", "%s with healthy input: first %s, later %s" % (name, b, a))
        check(name + " repeated")

    @staticmethod
    def clone(o):
        t = type(o)
        if isinstance(o, s.Region):
            return o.clone()
        if t is s.Matrix3d or t is s.RangeSet or t in v.INTERVALS or t in (s.Angle, s.NormalizedAngle, s.Vector3d, s.UnitVector3d, s.Box3d, s.LonLat):
            return t(o)
        return o

    def judge_healthy(self, ref, name, run):
        kind, val, expect = ref[:3]
        if expect is calls.Bad:
            if kind == "ok":
                run.fail("bad-item-accepted", "%s accepted items that are not integers or pairs of integers: %s" % (name, val))
            if not issubclass(val, ORDINARY):
                run.fail("wrong-exception", "%s raised %s for a bad item" % (name, val.__name__))
        elif expect is not None:
            if kind != "ok":
                run.fail("healthy-input-rejected", "%s raised %s for %s" % (name, val.__name__, expect))
            if val != expect:
                run.fail("wrong-result", "%s returned %s, the items say %s" % (name, val, expect))
        elif kind == "raised" and not issubclass(val, ORDINARY + (RuntimeError, NotImplementedError)):
            run.fail("wrong-exception", "%s raised %s" % (name, val.__name__))

    def judge_bad(self, name, index, seed, pool, c2, bad, got, run, what):
        """A bad item may be refused or, when it happens to be an item, taken; never half of each."""
        if got[0] == "ok" and name == "rangeset" and c2.kinds[c2.at] in ("next", "yield") and bad is not None:
            try:
                calls.model_rangeset([bad])
            except calls.Bad:
                run.fail("bad-item-accepted", "%s: the item %r was accepted: %s" % (what, bad, got[1]))

    def side_effect(self, r, pool, want, side, run, ctl):
        """User code that, in the middle of a call, uses the library, drops references or collects garbage."""
        k = r.randrange(8)

        def act(kind):
            if k == 0:
                gc.collect()
            elif k == 1:
                s.RangeSet([1, (4, 9), 12]).complement()
                s.ConvexPolygon([s.UnitVector3d.X(), s.UnitVector3d.Y(), s.UnitVector3d.Z()]).getBoundingBox()
            elif k == 2:
                for i, o in enumerate(pool):
                    if type(o) is s.RangeSet:
                        o.insert(5, 9)
                        w = s.RangeSet([tuple(x) for x in eval(want[i][1])])
                        w.insert(5, 9)
                        want[i] = v.look(w)
                        side.append(lambda: None)
                        break
            elif k == 3:
                try:
                    s.RangeSet([1, None])
                except ValueError:
                    pass
            elif k == 4:
                try:
                    s.ConvexPolygon([])
                except ValueError:
                    pass
            else:
                # The lists being read shrink, grow or change under the reader.
                run.count("fault.container_changed")
                side.append(lambda: None)
                for c in ctl.containers:
                    if k == 5:
                        c.clear()
                    elif k == 6:
                        c.extend(list(c)[:3])
                    else:
                        c[:] = [s.UnitVector3d.Z() if isinstance(x, s.UnitVector3d) else type(x)(3) if type(x) in (int, float) else (2, 5) for x in c]
                gc.collect()
            return None
        return act

