"""C12: values sent through pickle, YAML, copy and encoded bytes, over a simulated
disk that tears, truncates and alters what it stores, into other interpreters."""
import copy, copyreg, ctypes, errno, io, os, pickle, random, signal, socket, struct, subprocess, sys, traceback

import yaml
import lsst.sphgeom as s
import values as v

HERE = os.path.dirname(os.path.abspath(__file__))
PEER_SEEDS = ("1", "4242")
SECTOR = 32
YAML_TYPES = (s.Region,) + v.PIXELIZATIONS
SANE = {"Chunker": 200, "HealpixPixelization": 20}


# ---- structure, sharing and answers of a loaded object ----------------------

def skeleton(o, seen=None):
    seen = {} if seen is None else seen
    t = type(o)
    if t in (list, tuple, dict) or isinstance(o, v.LIBRARY):
        if id(o) in seen:
            return "#%d" % seen[id(o)]
        seen[id(o)] = len(seen)
    if t is list or t is tuple:
        return [t.__name__] + [skeleton(x, seen) for x in o]
    if t is dict:
        return ["dict"] + [[k if isinstance(k, str) else repr(k), skeleton(x, seen)] for k, x in o.items()]
    if isinstance(o, v.LIBRARY):
        return [t.__module__ + "." + t.__qualname__, v.answers(o)]
    return [t.__name__, repr(o)[:200]]


def leaves(o, out, seen):
    if id(o) in seen:
        return out
    seen[id(o)] = o
    if type(o) in (list, tuple):
        for x in o:
            leaves(x, out, seen)
    elif type(o) is dict:
        for k, x in o.items():
            leaves(k, out, seen)
            leaves(x, out, seen)
    elif isinstance(o, v.LIBRARY):
        out.append(o)
    return out


def mutate(o, r):
    """Changes the object itself, in some way that its type allows."""
    t = type(o)
    if t is s.RangeSet:
        f = r.choice([lambda: o.insert(v.u64(r)), lambda: o.erase(v.u64(r), v.u64(r)), o.complement, o.clear, lambda: o.simplify(3), lambda: o.__ior__(v.rangeset(r)), lambda: o.__ixor__(v.rangeset(r))])
    elif t in (s.Angle, s.Vector3d):
        f = r.choice([lambda: o.__imul__(3.0), lambda: o.__itruediv__(7.0), lambda: o.__iadd__(t(0.25) if t is s.Angle else t(1, 2, 3)), lambda: o.__isub__(t(0.5) if t is s.Angle else t(1, 2, 3))])
    elif t in (s.Circle, s.Box):
        f = r.choice([lambda: o.dilateBy(v.A(0.125)), lambda: o.erodeBy(v.A(0.01)), lambda: o.expandTo(v.unit(r) if t is s.Circle else v.lonlat(r)), lambda: o.clipTo(v.circle(r) if t is s.Circle else v.box(r)), o.complement if t is s.Circle else lambda: o.dilateBy(v.A(0.2))])
    elif t is s.Ellipse:
        f = o.complement
    elif t is s.Interval1d:
        f = r.choice([lambda: o.dilateBy(0.5), lambda: o.expandTo(9.0), lambda: o.clipTo(s.Interval1d(0.0, 0.5))])
    elif t is s.AngleInterval or t is s.NormalizedAngleInterval:
        f = r.choice([lambda: o.dilateBy(v.A(0.125)), lambda: o.expandTo(v.normalized(r) if t is s.NormalizedAngleInterval else v.A(1.5)), lambda: o.clipTo(t.empty())])
    elif t is s.Box3d:
        f = r.choice([lambda: o.dilateBy(0.5), lambda: o.expandTo(v.V(9, 8, 7)), lambda: o.clipTo(s.Box3d.aroundUnitSphere())])
    else:
        return False
    try:
        f()
    except Exception:
        return False
    return True


def near_twin(o, seed):
    """An object that shares as much as possible with `o` without being equal to it."""
    r = random.Random(seed)
    t = type(o)
    try:
        if t in (s.UnionRegion, s.IntersectionRegion):
            a, b = o.cloneOperand(0), o.cloneOperand(1)
            k = r.randrange(4)
            return [lambda: t(a, near_twin(b, seed + 1)), lambda: t(near_twin(a, seed + 1), b), lambda: t(b, a), lambda: (s.IntersectionRegion if t is s.UnionRegion else s.UnionRegion)(a, b)][k]()
        if t is s.Circle:
            c, a = o.getCenter(), o.getOpeningAngle().asRadians()
            return r.choice([lambda: s.Circle(c, v.A(a * 0.75 + 0.001)), lambda: o.complemented(), lambda: s.Circle(-c, v.A(a)), lambda: s.Ellipse(o)])()
        if t is s.Ellipse:
            return r.choice([lambda: s.Ellipse(o.getCenter(), o.getAlpha(), o.getBeta() * 0.875, v.A(0.0)), lambda: o.complemented(), lambda: s.Ellipse(o.getF1(), -o.getF2(), o.getAlpha())])()
        if t is s.Box:
            lon, lat = o.getLon(), o.getLat()
            return r.choice([lambda: s.Box(lon, lat.erodedBy(v.A(1e-6))), lambda: s.Box(lon.erodedBy(v.A(1e-6)), lat), lambda: o.dilatedBy(v.A(1e-9))])()
        if t is s.ConvexPolygon:
            p = o.getVertices()
            q = p[-1] + (p[0] - p[-1]) * 0.125
            return s.ConvexPolygon(p[:-1] + [v.U(q.x(), q.y(), q.z())])
        if t is s.RangeSet:
            x = s.RangeSet(o)
            x.insert(v.TOP - r.randrange(9)) if r.randrange(2) else x.complement()
            return x
        if t in v.PIXELIZATIONS:
            return r.choice([u for u in v.PIXELIZATIONS if u is not t])(o.getLevel()) if r.randrange(2) else t((o.getLevel() + 1) % 12)
        if t is s.Chunker:
            return s.Chunker(o.numStripes, o.numSubStripesPerStripe + 1) if r.randrange(2) else s.Chunker(o.numSubStripesPerStripe, o.numStripes)
        if t in (v.A, v.NA):
            return (v.NA if t is v.A else v.A)(o.asRadians()) if r.randrange(2) else t(-o.asRadians())
        if t in (v.U, v.V):
            return (v.V(o.x(), o.y(), o.z()) if t is v.U else v.U(o.x(), o.y(), o.z())) if r.randrange(2) else -o
        if t is s.LonLat:
            return s.LonLat(o.getLon(), -o.getLat())
        if t in v.INTERVALS:
            return t(o.getB(), o.getA()) if r.randrange(2) else t(o.getA())
        if t is s.Box3d:
            return s.Box3d(o.x(), o.z(), o.y())
        if t is s.Matrix3d:
            return o.transpose()
    except Exception:
        pass
    return None


def well_formed(o):
    """None, or what is wrong with a library object that came out of damaged bytes."""
    if type(o) is s.RangeSet and not o.isValid():
        return "an invalid RangeSet %r" % o
    if isinstance(o, s.Region):
        e = o.encode()
        p = s.Region.decode(e)
        if not isinstance(o, type(p)) or p.encode() != e:
            return "a %s whose encoding decodes to something else" % type(o).__name__
    try:
        v.answers(o)
    except Exception:
        pass
    return None


# ---- damaged pickles are loaded with only this package in reach --------------

def shim(name, cls):
    def construct(*args):
        if any(isinstance(a, int) and abs(a) > SANE[name] for a in args):
            raise ValueError("outside the simulated range")
        return cls(*args)
    return construct


def find_class(module, name):
    if module in ("copyreg", "copy_reg") and name == "__newobj__":
        return copyreg.__newobj__
    if module == "_codecs" and name == "encode":
        import _codecs
        return _codecs.encode
    if module in ("lsst.sphgeom._sphgeom", "lsst.sphgeom._healpixPixelization"):
        c = getattr(sys.modules[module], name)
        if isinstance(c, type) and issubclass(c, v.LIBRARY):
            return shim(name, c) if name in SANE else c
    if module == "values" and name in ("SubBox", "SubPolygon"):
        return getattr(v, name)
    raise pickle.UnpicklingError("global %s.%s" % (module, name))


class Restricted(pickle.Unpickler):
    def find_class(self, module, name):
        return find_class(module, name)


class Guard(pickle._Unpickler):
    """Finds streams that leave an object created but never given its state, which
    pybind11 does not protect against and which no library code can."""

    def __init__(self, f):
        pickle._Unpickler.__init__(self, f)
        self.raw = {}

    def find_class(self, module, name):
        return find_class(module, name)

    def created(self):
        o = self.stack[-1]
        if isinstance(o, v.LIBRARY):
            self.raw[id(o)] = o

    def load_newobj(self):
        pickle._Unpickler.load_newobj(self)
        self.created()

    def load_newobj_ex(self):
        pickle._Unpickler.load_newobj_ex(self)
        self.created()

    def load_reduce(self):
        new = self.stack[-2] is copyreg.__newobj__ if len(self.stack) > 1 else False
        pickle._Unpickler.load_reduce(self)
        if new:
            self.created()

    def load_build(self):
        o = self.stack[-2] if len(self.stack) > 1 else None
        pickle._Unpickler.load_build(self)
        self.raw.pop(id(o), None)

    dispatch = dict(pickle._Unpickler.dispatch)
    dispatch[pickle.NEWOBJ[0]] = load_newobj
    dispatch[pickle.NEWOBJ_EX[0]] = load_newobj_ex
    dispatch[pickle.REDUCE[0]] = load_reduce
    dispatch[pickle.BUILD[0]] = load_build


def leaves_uninitialised(data):
    g = Guard(io.BytesIO(data))
    try:
        g.load()
    except Exception:
        pass
    return bool(g.raw)


# ---- the simulated disk -------------------------------------------------------

class Crash(Exception):
    pass


class Raw(io.RawIOBase):
    """A file whose reads and writes are short, and whose device may fill up, fail or lose power."""

    def __init__(self, rng, run, data=b"", limit=None, fault=None):
        self.rng, self.run, self.data, self.pos, self.limit, self.fault = rng, run, bytearray(data), 0, limit, fault

    def readable(self):
        return True

    def writable(self):
        return True

    def write(self, b):
        self.run.simtime += 1
        n = len(b)
        if self.rng.randrange(2):
            n = min(n, 1 + self.rng.randrange(max(1, n)))
            self.run.count("fault.short_write")
        if self.limit is not None and len(self.data) + n > self.limit:
            n = self.limit - len(self.data)
            if n <= 0:
                self.run.count("fault." + self.fault)
                if self.fault == "crash":
                    raise Crash()
                raise OSError(errno.ENOSPC if self.fault == "disk_full" else errno.EIO, "simulated")
        self.data += bytes(b[:n])
        return n

    def readinto(self, b):
        self.run.simtime += 1
        n = min(len(b), len(self.data) - self.pos)
        if n > 1 and self.rng.randrange(2):
            n = 1 + self.rng.randrange(n)
            self.run.count("fault.short_read")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


# ---- formats -------------------------------------------------------------------

def write_value(fmt, o, f, variant):
    if fmt == "pickle":
        p = variant % 6
        if variant & 8:
            pickle._Pickler(f, p).dump(o)
        elif variant & 16:
            f.write(pickle.dumps(o, p))
        else:
            pickle.Pickler(f, p).dump(o)
    elif fmt == "yaml":
        t = io.TextIOWrapper(f, encoding="utf-8", write_through=True)
        yaml.dump(o, t, Dumper=yaml.CDumper if variant & 1 else yaml.Dumper, default_flow_style=[None, True, False][variant % 3], width=[80, 20, 1000][variant % 3])
        t.flush()
        t.detach()
    elif fmt == "hex":
        f.write(o.encode().hex().encode())
    elif fmt == "bytes":
        f.write(o.encode())
    f.flush()


def yaml_loaders(o, variant):
    """The package registers its representers with yaml.Dumper; what other dumpers write names Python classes."""
    every = [yaml.Loader, yaml.UnsafeLoader, yaml.CLoader]
    if not variant & 1 and all(isinstance(x, YAML_TYPES) and type(x).__module__ != "values" for x in leaves(o, [], {})):
        every += [yaml.FullLoader, yaml.SafeLoader]
    return every


def read_value(fmt, f, variant, loader=None, data=None):
    if fmt == "pickle":
        return pickle._Unpickler(f).load() if variant & 1 else pickle.Unpickler(f).load()
    if fmt == "yaml":
        return yaml.load(io.TextIOWrapper(f, encoding="utf-8") if variant & 1 else f.read(), Loader=getattr(yaml, loader))
    if fmt == "hex":
        return s.Region.decode(bytes.fromhex(f.read().decode()))
    return s.Region.decode(f.read())


# ---- peers: other interpreters, with another hash seed ---------------------------

def peer_main(name, parent):
    import gc
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if os.getppid() != parent:
        os._exit(0)
    gc.disable()
    gc.freeze()
    srv = socket.socket(socket.AF_UNIX)
    srv.bind("\0" + name)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    while True:
        c, _ = srv.accept()
        if os.fork() == 0:
            try:
                srv.close()
                signal.alarm(120)
                f = c.makefile("rwb")
                fmt, variant, loader, data = pickle.loads(f.read(struct.unpack("<I", f.read(4))[0]))
                try:
                    res = ("ok", repr(skeleton(read_value(fmt, io.BytesIO(data), variant, loader))))
                except Exception as e:
                    res = ("exc", type(e).__name__ + ": " + str(e)[:200])
                res = pickle.dumps(res)
                f.write(struct.pack("<I", len(res)) + res)
                f.flush()
            finally:
                os._exit(0)
        c.close()


def ask_peer(name, *request):
    c = socket.socket(socket.AF_UNIX)
    c.connect("\0" + name)
    f = c.makefile("rwb")
    d = pickle.dumps(request)
    f.write(struct.pack("<I", len(d)) + d)
    f.flush()
    h = f.read(4)
    if len(h) < 4:
        return None
    return pickle.loads(f.read(struct.unpack("<I", h)[0]))


class World:
    arena = True        # an object often takes the address of one that is gone
    step_budget = 3_000_000_000
    rule = "a run is non-trivial when at least one stored value was loaded back equal and at least one fault was injected"
    real = "the library, its Python bindings and package modules, CPython's pickle and copy, PyYAML, a second and third interpreter process with other hash seeds"
    stub = "the disk (short and torn reads and writes, full disk, I/O errors, power loss, altered bytes)"
    state_measure = "distinct (format, variant, type, outcome of the load, kind of damage) tuples"
    peers = ()

    def start(self):
        self.names = []
        self.procs = []
        for i, hs in enumerate(PEER_SEEDS):
            name = "sphsim-%d-%d" % (os.getpid(), i)
            env = dict(os.environ, PYTHONHASHSEED=hs)
            env.pop("SIM_REEXEC", None)
            p = subprocess.Popen([sys.executable, os.path.join(HERE, "peer.py"), name, str(os.getpid())], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
            if p.stdout.readline().strip() != b"ready":
                raise RuntimeError("a peer interpreter did not start")
            self.names.append(name)
            self.procs.append(p)

    def finish(self):
        for p in self.procs:
            p.kill()
            p.wait()

    def generate(self, r, thorough):
        plan = []
        for _ in range(r.randrange(2, 6)):
            plan.append(("leaf", r.randrange(len(v.NAMES)), r.randrange(1 << 20)))
        for _ in range(r.randrange(8, 30 if not thorough else 60)):
            k = r.randrange(20)
            if k < 4:
                plan.append(("leaf", r.randrange(len(v.NAMES)), r.randrange(1 << 20)))
            elif k < 6:
                plan.append(("pack", r.randrange(6), r.randrange(1 << 20)))
            elif k < 11:
                plan.append(("store", r.randrange(8), r.randrange(1 << 10), r.randrange(1 << 20), r.randrange(32), r.choice([0, 0, 0, 1, 2, 3, 4]), r.randrange(1 << 20)))
            elif k < 15:
                plan.append(("load", r.randrange(1 << 10), r.randrange(3), r.randrange(4), r.randrange(1 << 20)))
            elif k < 18:
                plan.append(("damage", r.randrange(1 << 10), r.randrange(8), r.randrange(1 << 20)))
            elif k < 19:
                plan.append(("copy", r.randrange(1 << 10), r.randrange(2)))
            else:
                plan.append(("state", r.randrange(1 << 10), r.randrange(6), r.randrange(1 << 20)))
            if plan and not r.randrange(6):
                plan.append(("change", r.randrange(1 << 10), r.randrange(1 << 20)))
            if not r.randrange(12):
                plan.append(("series", r.randrange(len(v.NAMES)), r.randrange(1 << 20), r.randrange(6), r.randrange(1 << 20)))
        return plan

    def execute(self, plan, run):
        pool, files, arrived, made = [], [], [], []
        loaded = faults = 0

        def same(a, o, where):
            x, y = repr(skeleton(a)), repr(skeleton(o))
            if x != y:
                run.fail("changed-in-transport", "%s: %s became %s" % (where, x[:500], y[:500]))

        def equal(a, o, where):
            for p, q in zip(leaves(a, [], {}), leaves(o, [], {})):
                if isinstance(p, v.NO_EQ) or not p == p:
                    continue
                if (p == q) is not True or (q == p) is not True or (p != q) is not False:
                    run.fail("not-equal-after-transport", "%s: %r and %r do not compare equal" % (where, p, q))

        for op in plan:
            run.simtime += 1
            if op[0] == "leaf":
                pool.append(v.make(op[1], op[2]))
                made.append((pool[-1], op[1], op[2]))
                run.event("leaf", v.look(pool[-1]))
            elif op[0] == "pack" and pool:
                r = random.Random(op[2])
                items = [r.choice(pool) for _ in range(r.randrange(1, 5))]
                twin = r.choice(made)
                if op[2] & 1:
                    # Two objects with one value.
                    items += [twin[0], v.make(*twin[1:])]
                if op[1] == 0:
                    o = items
                elif op[1] == 1:
                    o = tuple(items)
                elif op[1] == 2:
                    o = {"k%d" % i: x for i, x in enumerate(items)}
                elif op[1] == 3:
                    o = [items, items, items[0]]
                elif op[1] == 4:
                    o = {"a": items, "b": {"c": items[0]}, "d": [items]}
                else:
                    o = [items[0]] * 3
                if len(leaves(o, [], {})) <= 24:
                    pool.append(o)
                run.event("pack", op[1], len(pool))
            elif op[0] == "store" and pool:
                kind, target, seed, variant, fault, limit = op[1:]
                o = pool[target % len(pool)]
                fmt = ["pickle", "pickle", "pickle", "yaml", "yaml", "hex", "bytes", "append"][kind]
                if fmt in ("hex", "bytes"):
                    regions = [x for x in leaves(o, [], {}) if isinstance(x, s.Region) and type(x).__module__ != "values"]
                    if not regions:
                        continue
                    o = regions[0]
                prefix = b""
                records = []
                if fmt == "append":
                    fmt = "pickle"
                    old = [f for f in files if f["fmt"] == "pickle" and not f["damaged"] and f["complete"]]
                    if old:
                        prefix, records = old[-1]["data"], list(old[-1]["records"])
                if fmt == "yaml":
                    o = self.yamlable(o)
                name = [None, "crash", "disk_full", "io_error", "crash"][fault]
                raw = Raw(random.Random(seed), run, limit=limit % 600 if name else None, fault=name)
                f = io.BufferedWriter(raw, [1, 16, 64, 8192][variant % 4])
                complete = True
                before = repr(skeleton(o))
                try:
                    write_value(fmt, o, f, variant)
                except Crash:
                    complete = False
                except OSError as e:
                    complete = False
                    if e.errno not in (errno.ENOSPC, errno.EIO):
                        raise
                if name and not complete:
                    faults += 1
                try:
                    f.detach() if complete else None
                except (Crash, OSError):
                    pass
                if repr(skeleton(o)) != before:
                    run.fail("store-changed-object", "storing changed %s to %s" % (before[:400], repr(skeleton(o))[:400]))
                data = bytes(raw.data)
                if not complete and fault == 4 and len(data) > SECTOR:
                    # Un-synced sectors are lost one by one: holes read back as zeros.
                    b = bytearray(data)
                    r = random.Random(limit)
                    for i in range(0, len(b), SECTOR):
                        if r.randrange(3) == 0:
                            b[i:i + SECTOR] = bytes(len(b[i:i + SECTOR]))
                            run.count("fault.lost_sector")
                    data = bytes(b)
                rec = {"fmt": fmt, "data": prefix + data, "complete": complete, "damaged": not complete, "records": records + [o], "whole": records if not complete and fault != 4 else None,
                       "expect": None, "loaders": [l.__name__ for l in yaml_loaders(o, variant)] if fmt == "yaml" else None, "safe": fmt != "yaml" or len(yaml_loaders(o, variant)) > 3}
                files.append(rec)
                run.event("store", fmt, variant, complete, len(rec["data"]), rec["data"].hex() if fmt != "yaml" else rec["data"].decode("utf-8", "replace"))
                run.count("op.store_" + fmt)
            elif op[0] == "load" and files:
                rec = files[op[1] % len(files)]
                where, variant, seed = op[2:]
                if not rec["damaged"]:
                    arrived += self.load_good(rec, where, variant, seed, run, same, equal)
                    loaded += 1
                else:
                    self.load_bad(rec, variant, seed, run, same)
            elif op[0] == "damage" and files:
                rec = dict(files[op[1] % len(files)])
                data = bytearray(rec["data"])
                r = random.Random(op[3])
                kind = op[2]
                if not data:
                    continue
                if kind < 3:
                    data = data[:r.randrange(len(data))]
                    what = "truncated"
                elif kind < 6:
                    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
                        data[r.randrange(len(data))] ^= 1 << r.randrange(8)
                    what = "bit_flip"
                elif kind == 6:
                    i = r.randrange(len(data)) // SECTOR * SECTOR
                    data[i:i + SECTOR] = bytes(len(data[i:i + SECTOR]))
                    what = "zeroed_sector"
                else:
                    other = r.choice(files)["data"]
                    i = r.randrange(len(data) + 1)
                    data = data[:i] + other[r.randrange(len(other) + 1):]
                    what = "spliced"
                run.count("fault." + what)
                faults += 1
                rec.update(data=bytes(data), damaged=True, complete=False, whole=None)
                if what == "truncated" and rec["fmt"] == "pickle":
                    rec["whole"] = []
                files.append(rec)
                run.event("damage", what, len(data))
            elif op[0] == "copy" and pool:
                o = pool[op[1] % len(pool)]
                run.count("op.copy")
                try:
                    c = copy.deepcopy(o) if op[2] else copy.copy(o)
                except Exception as e:
                    run.fail("copy-failed", "copying %r raised %s: %s" % (o, type(e).__name__, e))
                same(o, c, "copy")
                equal(o, c, "copy")
                if isinstance(o, v.LIBRARY) and c is o:
                    run.fail("copy-is-alias", "copying %r returned the object itself" % (o,))
                if op[2] or isinstance(o, v.LIBRARY):
                    arrived.append((c, None))
                run.event("copy", repr(skeleton(c))[:2000])
            elif op[0] == "change" and arrived:
                # A loaded object is its own: changing it changes nothing else.
                r = random.Random(op[2])
                seen = {}
                target, again = arrived[op[1] % len(arrived)]
                others = [again()] if again else []
                for root in [a for a, _ in arrived] + pool + others:
                    leaves(root, [], seen)
                every = [x for x in seen.values() if isinstance(x, v.LIBRARY)]
                x = (leaves(target, [], {}) or [None])[0 if op[1] & 1 else -1]
                original = repr(skeleton(others[0])) if others else None
                before = [v.look(y) for y in every]
                if x is not None and mutate(x, r):
                    run.count("op.change_loaded")
                    for y, b in zip(every, before):
                        if y is not x and v.look(y) != b:
                            run.fail("loaded-object-shared", "changing a loaded %s in place changed another object from %s to %s" % (type(x).__name__, b, v.look(y)))
                    if others:
                        late = repr(skeleton(again()))
                        if late != original:
                            run.fail("loaded-object-shared", "changing a loaded %s in place changed what its bytes load as, from %s to %s" % (type(x).__name__, original[:400], late[:400]))
                    run.event("change", v.look(x))
            elif op[0] == "series":
                self.series(op, run)
                loaded += 1
            elif op[0] == "state" and pool:
                self.hostile_state(pool, op, run)
                faults += 1
        run.nontrivial = bool(loaded and faults)

    def series(self, op, run):
        """Objects stored one after the other: each an altered, released and replaced, or near twin of the last."""
        kind, seed, how, rseed = op[1:]
        r = random.Random(rseed)
        if how == 5:
            kind = v.NAMES.index(r.choice(v.REGIONS))
        cur = v.make(kind, seed)
        stored = []
        for n in range(r.randrange(3, 9)):
            fmt = r.choice(["yaml", "yaml", "pickle", "hex" if isinstance(cur, s.Region) and type(cur).__module__ != "values" else "pickle"])
            f = io.BytesIO()
            variant = r.randrange(32)
            try:
                write_value(fmt, cur, f, variant)
            except Exception as e:
                run.fail("not-stored", "storing %r as %s raised %s: %s" % (cur, fmt, type(e).__name__, str(e)[:300]))
            loaders = [x.__name__ for x in yaml_loaders(cur, variant)] if fmt == "yaml" else [None]
            stored.append((fmt, variant, loaders, f.getvalue(), repr(skeleton(cur))))
            k = r.randrange(4)
            nxt = None
            if k == 0:
                nxt = cur if mutate(cur, r) else None
            elif k == 1:
                nxt = near_twin(cur, r.randrange(1 << 20))
            elif k == 2:
                # The next object may take the place of this one in memory.
                t = cur.clone() if isinstance(cur, s.Region) else None
                cur = None
                nxt = near_twin(t, r.randrange(1 << 20)) if t is not None else None
                t = None
            if nxt is None:
                cur = None
                seed += 1
                nxt = v.make(kind, seed)
            cur = nxt
            run.simtime += 1
        run.count("op.store_series")
        order = list(range(len(stored))) * r.randrange(1, 3)
        r.shuffle(order)
        for i in order:
            fmt, variant, loaders, data, want = stored[i]
            try:
                got = read_value(fmt, io.BytesIO(data), variant, r.choice(loaders))
            except Exception as e:
                run.fail("intact-bytes-rejected", "%s of %s raised %s: %s" % (fmt, want[:400], type(e).__name__, str(e)[:300]))
            now = repr(skeleton(got))
            if now != want:
                run.fail("changed-in-transport", "%s: number %d of a series stored as %s loaded as %s" % (fmt, i, want[:500], now[:500]))
            if not r.randrange(3):
                mutate(got, r)      # what is loaded later must not notice
            run.state("series", fmt, type(got).__name__)
        run.event("series", [x[:3] for x in stored])

    @staticmethod
    def yamlable(o):
        """YAML has no tuples in its safe subset."""
        memo = {}

        def conv(x):
            if type(x) in (tuple, list):
                if id(x) not in memo:
                    memo[id(x)] = [conv(y) for y in x]
                return memo[id(x)]
            if type(x) is dict:
                if id(x) not in memo:
                    memo[id(x)] = {k: conv(y) for k, y in x.items()}
                return memo[id(x)]
            return x
        return conv(o)

    def load_good(self, rec, where, variant, seed, run, same, equal):
        r = random.Random(seed)
        fmt = rec["fmt"]
        loader = r.choice(rec["loaders"]) if rec["loaders"] else None
        result = []
        if where == 0 or len(rec["records"]) > 1:
            f = io.BufferedReader(Raw(r, run, rec["data"]), r.choice([1, 7, 64, 8192]))
            for o in rec["records"]:
                try:
                    got = read_value(fmt, f, variant, loader)
                except Exception as e:
                    run.fail("intact-bytes-rejected", "%s (loader %s) of %r raised %s: %s" % (fmt, loader, o, type(e).__name__, str(e)[:300]))
                same(o, got, fmt)
                equal(o, got, fmt)
                run.event("load", fmt, loader, variant & 1, repr(skeleton(got))[:3000])
                for x in leaves(got, [], {}):
                    run.state(fmt, loader, type(x).__name__, "ok")
                result.append((got, None if len(rec["records"]) > 1 else lambda: read_value(fmt, io.BytesIO(rec["data"]), variant, loader)))
        else:
            o = rec["records"][0]
            res = ask_peer(self.names[(where - 1) % len(self.names)], fmt, variant, loader, rec["data"])
            run.count("op.load_in_other_interpreter")
            if res is None:
                run.fail("other-interpreter-died", "%s of %r: the loading interpreter died" % (fmt, o))
            if res[0] == "exc":
                run.fail("intact-bytes-rejected-elsewhere", "%s (loader %s) of %r raised %s in another interpreter" % (fmt, loader, o, res[1]))
            if res[1] != repr(skeleton(o)):
                run.fail("changed-in-transport-elsewhere", "%s: %s became %s in another interpreter" % (fmt, repr(skeleton(o))[:400], res[1][:400]))
            run.event("peer", where, fmt, res[1][:3000])
            for x in leaves(o, [], {}):
                run.state(fmt, loader, type(x).__name__, "peer")
        return result

    def load_bad(self, rec, variant, seed, run, same):
        r = random.Random(seed)
        fmt, data = rec["fmt"], rec["data"]
        if fmt == "yaml" and not rec["safe"]:
            return      # such documents name any callable
        f = io.BufferedReader(Raw(r, run, data), r.choice([1, 7, 64, 8192]))
        whole = list(rec["whole"] or [])
        for _ in range(len(rec["records"]) + 1):
            got = None
            try:
                if fmt == "pickle":
                    n = len(f.peek(1))
                    if leaves_uninitialised(data[f.raw.pos - n:]):
                        run.count("probe.uninitialised_stream_skipped")
                        return
                    got = Restricted(f).load()
                elif fmt == "yaml":
                    got = read_value(fmt, f, variant, r.choice(["SafeLoader", "FullLoader"]))
                else:
                    got = read_value(fmt, f, variant)
            except SystemError as e:
                run.fail("system-error", "loading damaged %s raised SystemError: %s" % (fmt, e))
            except Exception as e:
                run.event("bad", fmt, type(e).__name__)
                run.state(fmt, "bad", type(e).__name__)
                run.count("probe.damage_detected")
                if whole:
                    run.fail("durable-record-lost", "a complete earlier %s record in a torn file raised %s: %s" % (fmt, type(e).__name__, str(e)[:200]))
                return
            if whole:
                same(whole.pop(0), got, "record before a torn one")
            for x in leaves(got, [], {})[:12]:
                w = None
                try:
                    w = well_formed(x)
                except Exception as e:
                    w = "a %s that cannot be encoded and decoded (%s: %s)" % (type(x).__name__, type(e).__name__, str(e)[:200])
                if w:
                    run.fail("malformed-object", "damaged %s loaded as %s" % (fmt, w))
                run.state(fmt, "bad", type(x).__name__)
            run.count("probe.damage_undetected")
            run.event("badload", fmt, repr(v.look(got))[:2000])
            if fmt != "pickle":
                return

    def hostile_state(self, pool, op, run):
        """The state handed to an object being rebuilt is of the wrong shape."""
        r = random.Random(op[3])
        objs = [x for o in pool for x in leaves(o, [], {})]
        o = objs[op[1] % len(objs)]
        try:
            red = o.__reduce_ex__(4)
        except Exception as e:
            run.fail("not-picklable", "%r.__reduce_ex__ raised %s: %s" % (o, type(e).__name__, e))
        func, args, state = red[0], red[1], red[2] if len(red) > 2 else None
        bad = [None, (), (1,), (1.0, 2.0), b"", b"c", b"\0" * 25, "x", 3, [1, 2, 3], ("a", "b", "c"), (1, 2, 3, 4), (None, None, None), float("nan"), -1]
        if state is not None:
            # Like pickle: make the object, then give it its state.
            if isinstance(state, bytes) and state:
                b = bytearray(state)
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                bad += [state[:r.randrange(len(state))], state + b"\0", bytes(b), state * 2]
            x = r.choice(bad)
            new = func(*args)
            call = lambda: new.__setstate__(x)
        else:
            a = list(args)
            x = r.choice(bad)
            if a and r.randrange(2):
                a[r.randrange(len(a))] = x
            else:
                a = a[:-1] if r.randrange(2) else a + [x]
            if any(isinstance(y, int) and abs(y) > 200 for y in a) and isinstance(o, (s.Chunker, s.HealpixPixelization)):
                return
            new = None
            call = lambda: func(*a)
        run.count("fault.hostile_state")
        try:
            res = call()
        except SystemError as e:
            run.fail("system-error", "rebuilding a %s from %r raised SystemError: %s" % (type(o).__name__, x, e))
        except Exception as e:
            run.event("hostile", type(o).__name__, type(e).__name__)
            run.state("hostile", type(o).__name__, type(e).__name__)
            return
        res = new if new is not None else res
        if isinstance(res, v.LIBRARY):
            w = well_formed(res)
            if w:
                run.fail("malformed-object", "a wrong state %r was accepted as %s" % (x, w))
            run.event("hostile", v.look(res))
        run.state("hostile", type(o).__name__, "accepted")
