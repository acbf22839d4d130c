"""C01 and C02, Python side: encoded regions on the simulated disk, and damaged
ones given to every way of decoding bytes in Python."""
import random, struct

import lsst.sphgeom as s
import values as v
import w_transport

TYPES = {"b": s.Box, "c": s.Circle, "e": s.Ellipse, "p": s.ConvexPolygon, "u": s.UnionRegion, "i": s.IntersectionRegion}
SIZES = {"b": 33, "c": 41, "e": 113}
REJECTED = (RuntimeError, ValueError)


class Store(w_transport.World):
    """C01: regions only, as encoded bytes or their hexadecimal form."""
    rule = "a run is non-trivial when at least one stored region was loaded back equal and at least one fault was injected"

    def generate(self, r, thorough):
        plan = []
        for op in w_transport.World.generate(self, r, thorough):
            if op[0] == "leaf":
                op = ("leaf", v.NAMES.index(v.REGIONS[op[1] % len(v.REGIONS)]), op[2])
            elif op[0] == "store":
                op = ("store", 5 + op[1] % 2) + op[2:]
            elif op[0] == "series":
                op = op[:3] + (5, op[4])
            elif op[0] not in ("load", "damage", "change"):
                continue
            plan.append(op)
        return plan


def complete(data):
    """Is every length of this record consistent? (Only the format's fixed sizes and length prefixes are looked at.)"""
    todo = [(0, len(data))]
    while todo:
        a, b = todo.pop()
        if b <= a:
            return False
        t = chr(data[a])
        if t in SIZES:
            if b - a != SIZES[t]:
                return False
        elif t == "p":
            if b - a < 73 or (b - a - 1) % 24:
                return False
        elif t in "ui":
            at = a + 1
            for _ in range(2):
                if at + 8 > b:
                    return False
                n = struct.unpack_from("<Q", data, at)[0]
                at += 8
                if n > b - at:
                    return False
                todo.append((at, at + n))
                at += n
            if at != b:
                return False
        else:
            return False
    return True


class Corrupt:
    """C02."""
    step_budget = 3_000_000_000
    rule = "a run is non-trivial when a damaged record was decoded or rejected"
    real = "the library, its Python bindings, pickle"
    stub = "the disk that alters what it stores"
    state_measure = "distinct (entry point, kind of damage, type or exception) tuples"

    def start(self):
        pass

    def finish(self):
        pass

    def generate(self, r, thorough):
        plan = []
        for _ in range(r.randrange(6, 30 if not thorough else 60)):
            plan.append(("record", r.randrange(len(v.REGIONS)), r.randrange(1 << 20), r.randrange(10), r.randrange(1 << 20), r.randrange(8)))
        return plan

    def execute(self, plan, run):
        for _, kind, seed, damage, dseed, entry in plan:
            run.simtime += 1
            o = v.KINDS[v.REGIONS[kind]](random.Random(seed))
            good = o.encode()
            data, what = self.damage(bytearray(good), damage, random.Random(dseed))
            run.count("fault." + what)
            run.nontrivial = True
            self.decode(run, bytes(data), what, entry, random.Random(dseed), good if what == "intact" else None)

    @staticmethod
    def damage(data, kind, r):
        if kind == 0:
            return data, "intact"
        if kind == 1:
            return data[:r.randrange(len(data) + 1)], "truncated"
        if kind == 2:
            return data + bytes(r.choice([1, 2, 7, 8, 24, 33]) * [r.choice([0, 255, 98])]), "extended"
        if kind == 3:
            for _ in range(r.choice([1, 1, 2, 5])):
                data[r.randrange(len(data))] ^= 1 << r.randrange(8)
            return data, "bit_flip"
        if kind == 4:
            data[0] = r.choice(b"bcepuiBCx\0\xff")
            return data, "mistyped"
        if kind == 5:
            other = v.region(r).encode()
            i = r.randrange(len(data) + 1)
            return data[:i] + other[r.randrange(len(other) + 1):], "spliced"
        if kind == 6 and len(data) >= 9:
            at = 1 + 8 * r.randrange((len(data) - 1) // 8)
            data[at:at + 8] = struct.pack("<Q", r.choice([0, 1, 8, 33, len(data), len(data) - 9, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64 - 9, r.randrange(200)]) & 2 ** 64 - 1)
            return data, "length_changed"
        if kind == 7:
            at = 1 + 8 * r.randrange(max(1, (len(data) - 1) // 8))
            data[at:at + 8] = struct.pack("<d", r.choice([float("nan"), float("inf"), float("-inf"), -0.0, 5e-324, 1e308, 3.0, -7.0, 1e300]))
            return data, "number_changed"
        if kind == 8:
            i = r.randrange(len(data)) // 32 * 32
            data[i:i + 32] = bytes(len(data[i:i + 32]))
            return data, "zeroed_sector"
        t = r.choice([b"u", b"i"])
        other = v.region(r, 0).encode()
        return bytearray(t + struct.pack("<Q", len(data)) + bytes(data) + struct.pack("<Q", len(other) + r.choice([0, 0, 1, -1, 2 ** 32])) + other), "wrapped"

    def decode(self, run, data, what, entry, r, good):
        copied = bytes(bytearray(data))
        if entry < 4:
            name, f = "decode", lambda: r.choice([s.Region, s.Region, s.Box, s.Circle, s.UnionRegion]).decode(data)
            want = None
        else:
            want = TYPES.get(chr(data[0])) if data and r.randrange(3) else r.choice(list(TYPES.values()))
            want = want or s.Box
            name = "__setstate__ of " + want.__name__

            def f():
                o = want.__new__(want)
                o.__setstate__(data)
                return o
        steps = run.native.steps()
        try:
            o = f()
        except SystemError as e:
            run.fail("system-error", "%s of %s bytes %s raised SystemError: %s" % (name, what, data.hex()[:400], e))
        except REJECTED as e:
            if good is not None and (want is None or want is TYPES[chr(data[0])]):
                run.fail("intact-bytes-rejected", "%s of %s raised %s: %s" % (name, data.hex()[:400], type(e).__name__, e))
            run.event(name, what, type(e).__name__)
            run.state(name, what, type(e).__name__)
            return
        except BaseException as e:
            run.fail("wrong-exception", "%s of %s bytes %s raised %s: %s" % (name, what, data.hex()[:400], type(e).__name__, e))
        finally:
            if data != copied:
                run.fail("input-changed", "%s changed the bytes it was given" % name)
        if run.native.steps() - steps > 2000 * (len(data) + 20):
            run.fail("slow", "%s of %d bytes took %d steps" % (name, len(data), run.native.steps() - steps))
        t = type(o)
        if t is not TYPES[chr(data[0])] or (want is not None and t is not want):
            run.fail("wrong-type", "%s of bytes that start with %r gave a %s" % (name, data[:1], t.__name__))
        if not complete(data):
            run.fail("bad-length-accepted", "%s accepted %s, whose lengths do not fit" % (name, data.hex()[:600]))
        w = w_transport.well_formed(o)
        if w:
            run.fail("malformed-object", "%s of %s bytes %s gave %s" % (name, what, data.hex()[:400], w))
        if good is not None and o.encode() != data:
            run.fail("changed", "%s of %s encodes as %s" % (name, data.hex()[:400], o.encode().hex()[:400]))
        for x in [o.clone()] + s.Region.getRegions(o):
            if x.encode() != s.Region.decode(x.encode()).encode():
                run.fail("malformed-object", "a part of a decoded region, %r, does not survive encoding" % x)
            try:
                v.answers(x, False)
            except SystemError:
                raise
            except Exception as e:      # (say, a vector with no direction)
                run.event(type(e).__name__)
        run.event(name, what, t.__name__, o.encode().hex())
        run.state(name, what, t.__name__)
