"""Batch driver for the worlds that run the Python package: seeded search over
many simulated runs, determinism gate, minimisation, replay files, evidence.

Every run executes in its own child forked from an interpreter that has imported
the package and done nothing else with it.

usage: driver.py batch PROP SEED RUNS JOBS TIER OUT.json REPLAYDIR [TIMECAP] [KNOWN]
       driver.py replay [-v] FILE | plan PROP SEED INDEX TIER [v] | hashes PROP SEED RUNS JOBS TIER
"""
import ctypes, gc, hashlib, json, mmap, os, pickle, random, signal, struct, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def fixed_layout():
    """Addresses are part of the simulated environment: no random layout."""
    libc = ctypes.CDLL(None, use_errno=True)
    pers = libc.personality(0xFFFFFFFF)
    if pers != -1 and not pers & 0x40000 and not os.environ.get("SIM_REEXEC") and libc.personality(pers | 0x40000) != -1:
        os.environ["SIM_REEXEC"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls, detail)
        self.cls, self.detail = cls, detail


class Native:
    """The counters and the allocator inside the instrumented extension module."""

    def __init__(self):
        import lsst.sphgeom as s
        lib = ctypes.PyDLL(s._sphgeom.__file__)
        lib.simpy_init()
        for n in ("steps", "edges", "live", "allocs", "injected"):
            f = getattr(lib, "simpy_" + n)
            f.restype = ctypes.c_int64
            setattr(self, n, f)
        lib.simpy_track.argtypes = [ctypes.c_int, ctypes.c_int64]
        lib.simpy_limit.argtypes = [ctypes.c_uint64]
        self.arena = lib.simpy_arena
        lib.simpy_exhaust.argtypes = [ctypes.c_int64, ctypes.c_size_t]
        self.track, self.limit, self.exhaust = lib.simpy_track, lib.simpy_limit, lib.simpy_exhaust


class Run:
    def __init__(self, native, shared, verbose=False):
        self.native, self.shared, self.verbose = native, shared, verbose
        self.h = hashlib.sha256()
        self.counters, self.states = {}, set()
        self.nontrivial, self.simtime = False, 0

    def event(self, *parts):
        t = " ".join(map(str, parts))
        self.h.update(t.encode("utf-8", "backslashreplace") + b"\n")
        self.shared[0:8] = self.h.digest()[:8]
        if self.verbose:
            print("  " + t[:400], flush=True)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.blake2b(repr(parts).encode("utf-8", "backslashreplace"), digest_size=8).digest())

    def fail(self, cls, detail):
        raise Violation(cls, detail)


class Outcome:
    status, cls, detail, hash, steps, simtime, nontrivial = 0, "", "", "", 0, 0, False
    counters, states = {}, ()


def text(plan):
    return "".join("op %s%s\n" % (o[0], "".join(" %x" % x for x in o[1:])) for o in plan)


def parse(t):
    plan = []
    for line in t.splitlines():
        k = line.split()
        if k and k[0] == "op":
            plan.append((k[1],) + tuple(int(x, 16) for x in k[2:]))
    return plan


def make_plan(world, prop, seed, index, thorough):
    rng = random.Random(int.from_bytes(hashlib.sha256(("%s/%d/%d" % (prop, seed, index)).encode()).digest()[:8], "big"))
    return world.generate(rng, thorough)


class Zygote:
    """Forks every run that this process asks for from one and the same state:
    that of an interpreter that has loaded everything and done nothing."""
    pool, mine = [], 0

    def __init__(self, world, native):
        self.shared = mmap.mmap(-1, 64)
        self.err, self.out = os.memfd_create("stderr"), os.memfd_create("result")
        self.world = world
        ar, self.to = os.pipe()
        self.frm, bw = os.pipe()
        sys.stdout.flush()
        if os.fork() == 0:
            try:
                os.close(self.to)
                os.close(self.frm)
                while os.read(ar, 1):
                    pid = os.fork()
                    if pid == 0:
                        self.child(native, ar)
                    os.write(bw, struct.pack("<i", os.waitpid(pid, 0)[1]))
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)

    def child(self, native, ar):
        code = 99
        try:
            n, verbose = struct.unpack("<Q?", os.read(ar, 9))
            data = b""
            while len(data) < n:
                data += os.read(ar, n - len(data))
            if getattr(self.world, "arena", False):
                gc.collect()        # (empties the interpreter's free lists)
                native.arena()
            plan = parse(data.decode())
            if not verbose:
                os.dup2(self.err, 2)
            signal.alarm(300)
            run = Run(native, self.shared, verbose)
            res = {"status": 0, "cls": "", "detail": ""}
            s0 = native.steps()
            native.limit(self.world.step_budget)
            self.shared[8:9] = b"\1"
            try:
                self.world.execute(plan, run)
            except Violation as v:
                res.update(status=1, cls=v.cls, detail=v.detail)
            except BaseException:
                res.update(status=2, cls="harness", detail=traceback.format_exc()[-1500:])
            native.limit(2 ** 64 - 1)
            native.track(0, -1)
            res.update(hash=run.h.hexdigest()[:16], steps=native.steps() - s0, simtime=run.simtime, nontrivial=run.nontrivial,
                       counters=run.counters, states=sorted(run.states))
            with open(self.out, "wb", closefd=False) as f:
                f.write(pickle.dumps(res))
            sys.stdout.flush()
            code = 0
        finally:
            os._exit(code)

    def run(self, plan, verbose):
        """Gives (wait status, pickled result, what the run wrote to stderr)."""
        self.shared[0:16] = bytes(16)
        for fd in (self.err, self.out):
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, 0)
        data = text(plan).encode()
        data = b"r" + struct.pack("<Q?", len(data), verbose) + data
        while data:
            data = data[os.write(self.to, data):]
        st = struct.unpack("<i", os.read(self.frm, 4))[0]
        return st, os.pread(self.out, os.fstat(self.out).st_size, 0), os.pread(self.err, 1 << 16, 0)


def run_plan(world, native, plan, verbose=False):
    z = Zygote.pool[Zygote.mine]
    st, data, err = z.run(plan, verbose)
    o = Outcome()
    if st == 0 and data:
        o.__dict__.update(pickle.loads(data))
    else:
        o.status, o.hash = 1, bytes(z.shared[0:8]).hex()
        t = err.decode("utf-8", "replace")
        if "AddressSanitizer: " in t:
            o.cls = "asan:" + t.split("AddressSanitizer: ")[1].split()[0].strip(":")
        elif "SIM no-progress" in t:
            o.cls = "no-progress"
        elif os.WIFSIGNALED(st):
            o.cls = "signal:%d" % os.WTERMSIG(st)
        else:
            o.cls = "exit:%d" % os.waitstatus_to_exitcode(st)
        if z.shared[8:9] != b"\1":
            o.status, o.cls = 2, "harness"
        o.detail = "the interpreter died inside a library call: " + " | ".join([l.strip() for l in t.splitlines() if "ERROR" in l or "terminate" in l or "what()" in l][:3])
    return o


class Minimiser:
    def __init__(self, world, native, cls, max_tries, seconds):
        self.world, self.native, self.cls, self.left, self.deadline = world, native, cls, max_tries, time.monotonic() + seconds
        self.tries = 0

    def fails(self, p):
        if self.left <= 0 or time.monotonic() > self.deadline:
            return False
        self.left -= 1
        self.tries += 1
        o = run_plan(self.world, self.native, p)
        return o.status == 1 and o.cls == self.cls

    def minimise(self, p):
        chunk = max(1, len(p) // 2)
        while True:
            changed, i = False, 0
            while i < len(p) and len(p) > 1:
                q = p[:i] + p[i + chunk:]
                if q and self.fails(q):
                    p, changed = q, True
                else:
                    i += chunk
            if (chunk == 1 and not changed) or self.left <= 0 or time.monotonic() > self.deadline:
                break
            chunk = max(1, chunk // 2)
        changed = True
        while changed and self.left > 0:
            changed = False
            for i in range(len(p)):
                for j in range(1, len(p[i])):
                    for v in (0, 1, p[i][j] >> 16, p[i][j] >> 1):
                        if v >= p[i][j]:
                            continue
                        q = p[:i] + [p[i][:j] + (v,) + p[i][j + 1:]] + p[i + 1:]
                        if self.fails(q):
                            p, changed = q, True
                            break
        return p


def replay(worlds, native, path, verbose):
    prop = cls = hsh = None
    plan = parse(open(path).read())
    for line in open(path):
        k = line.split()
        if not k or line.startswith("#"):
            continue
        if k[0] == "property":
            prop = k[1]
        elif k[0] == "class":
            cls = k[1]
        elif k[0] == "hash":
            hsh = k[1]
    o = run_plan(worlds[prop], native, plan, verbose)
    if o.status == 2:
        print("harness error: " + o.detail)
        return 2
    if o.status == 0:
        print("replay: property %s held (event log %s)" % (prop, o.hash))
        return 0
    same = o.cls == cls and hsh in (None, o.hash)
    print("replay: property %s violated: %s: %s (event log %s%s)" % (prop, o.cls, o.detail, o.hash, ", as recorded" if same else ", DIFFERENT from the recorded failure"))
    return 1 if same else 3


def batch(argv, world, native, prop, seed, runs, jobs, tier, hashes_only):
    thorough = tier == "thorough"
    out, rep = (argv[7], argv[8]) if len(argv) > 8 else ("/dev/null", "/tmp")
    cap = float(argv[9]) if len(argv) > 9 else 1e9
    known = []
    if len(argv) > 10:
        known = [l.rstrip("\n").split("|", 1) for l in open(argv[10]) if "|" in l]

    def known_index(o):
        for i, (c, m) in enumerate(known):
            if o.cls == c and m in o.detail:
                return i
        return -1

    t0 = time.monotonic()
    stop = mmap.mmap(-1, 8)
    workers = []
    sys.stdout.flush()
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            Zygote.mine = 1 + w
            try:
                os.close(r)
                res = {"slots": [], "steps": 0, "simtime": 0, "ops": 0, "counters": {}, "states": set(), "cands": [], "known": [0] * len(known)}
                for i in range(w, runs, jobs):
                    if stop[0] or time.monotonic() - t0 > cap:
                        break
                    p = make_plan(world, prop, seed, i, thorough)
                    o = run_plan(world, native, p)
                    res["slots"].append((i, o.hash, 1 + o.status, o.nontrivial))
                    res["steps"] += o.steps
                    res["simtime"] += o.simtime
                    res["ops"] += len(p)
                    res["states"].update(o.states)
                    for k, v in o.counters.items():
                        res["counters"][k] = res["counters"].get(k, 0) + v
                    if o.status:
                        k = known_index(o) if o.status == 1 else -1
                        if k >= 0:
                            res["known"][k] += 1
                            continue
                        res["cands"].append((i, "harness" if o.status == 2 else o.cls, o.detail))
                        if len(res["cands"]) >= 3 and not hashes_only:
                            stop[0] = 1
                data = pickle.dumps(res)
                with os.fdopen(wfd, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wfd)
        workers.append((pid, r))
    parts = []
    bad = False
    for pid, r in workers:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            bad = True
        else:
            parts.append(pickle.loads(data))
    if bad:
        print("driver: a worker died", file=sys.stderr)
        return 2
    wall = time.monotonic() - t0
    slots = sorted(s for p in parts for s in p["slots"])
    if hashes_only:
        for s in slots:
            print(s[0], s[1], s[2])
        return 0
    counters, states, khits = {}, set(), [0] * len(known)
    for p in parts:
        for k, v in p["counters"].items():
            counters[k] = counters.get(k, 0) + v
        states |= p["states"]
        khits = [a + b for a, b in zip(khits, p["known"])]

    by_index = {s[0]: s for s in slots}
    rng = random.Random(seed * 977 + 5)
    rechecked = diverged = 0
    for i in rng.sample(sorted(by_index), min(24, len(by_index))):
        if by_index[i][2] != 1:
            continue
        rechecked += 1
        o = run_plan(world, native, make_plan(world, prop, seed, i, thorough))
        if o.hash != by_index[i][1] or o.status:
            diverged += 1
            print("driver: run %d diverged on re-execution (%s vs %s, %s %s)" % (i, o.hash, by_index[i][1], o.cls, o.detail), file=sys.stderr)

    confirmed = rejected = harness = 0
    violations, seen = [], set()
    for i, cls, detail in sorted(c for p in parts for c in p["cands"]):
        if cls == "harness":
            harness += 1
            print("driver: harness error in run %d: %s" % (i, detail), file=sys.stderr)
            continue
        if cls in seen or confirmed >= 3:
            continue
        seen.add(cls)
        plan = make_plan(world, prop, seed, i, thorough)
        a, b = run_plan(world, native, plan), run_plan(world, native, plan)
        if a.status != 1 or b.status != 1 or a.cls != b.cls or a.hash != b.hash or a.cls != cls:
            rejected += 1
            print("driver: violation of run %d (%s) did not reproduce identically (%s/%s)" % (i, cls, a.cls, b.cls), file=sys.stderr)
            continue
        m = Minimiser(world, native, a.cls, 1200 if thorough else 500, 75)
        q = m.minimise(plan)
        fin = run_plan(world, native, q)
        if fin.status != 1 or fin.cls != a.cls:
            q, fin = plan, a
        path = "%s/%s-%d-%d.replay" % (rep, prop, seed, i)
        with open(path, "w") as f:
            f.write("# replay v1: %d operations (from %d), run with: %s replay -v FILE\nproperty %s\nseed %d index %d\nclass %s\nhash %s\n# %s\n%s" %
                    (len(q), len(plan), "driver.py", prop, seed, i, fin.cls, fin.hash, fin.detail.replace("\n", " ")[:1500], text(q)))
        env = dict(os.environ)
        env.pop("SIM_REEXEC", None)
        rc = subprocess.run([sys.executable, sys.argv[0], "replay", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env).returncode
        if rc != 1:
            rejected += 1
            print("driver: replay of %s in a fresh process did not fail the same way (%d)" % (path, rc), file=sys.stderr)
            continue
        confirmed += 1
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s\n  seed %d, run %d, minimised from %d to %d operations in %d executions" % (fin.cls, fin.detail[:1500], seed, i, len(plan), len(q), m.tries))
        violations.append({"class": fin.cls, "detail": fin.detail[:1500], "replay": path})

    samples = []
    for s in slots:
        if s[2] == 1 and s[3] and len(samples) < 3:
            samples.append({"run": s[0], "event_log": s[1], "plan": text(make_plan(world, prop, seed, s[0], thorough))[:4000]})
    d = {"runs": len(slots), "requested": runs, "distinct_nontrivial": len({s[1] for s in slots if s[3]}), "ops": sum(p["ops"] for p in parts),
         "library_steps": sum(p["steps"] for p in parts), "simtime": sum(p["simtime"] for p in parts), "distinct_states": len(states),
         "library_edges": native.edges(), "wall_s": wall, "rechecked": rechecked, "diverged": diverged, "confirmed": confirmed, "rejected": rejected,
         "harness_errors": harness, "rule": world.rule, "real": world.real, "stub": world.stub, "state_measure": world.state_measure,
         "counters": counters, "known_hits": khits, "violations": violations, "samples": samples}
    with open(out, "w") as f:
        json.dump(d, f)
    if confirmed:
        return 1
    return 2 if diverged or rejected or harness else 0


def main():
    argv = sys.argv
    if len(argv) < 3:
        print(__doc__, file=sys.stderr)
        return 2
    fixed_layout()
    sys.path.insert(0, HERE)
    gc.disable()
    native = Native()
    import w_transport, w_iter, w_life, w_sets, w_bytes, w_pure, w_pythreads, w_pymem
    worlds = {"C12": w_transport.World(), "C13": w_iter.World(), "C14": w_life.World(), "C04": w_sets.World(), "C09": w_life.World(), "C01": w_bytes.Store(), "C02": w_bytes.Corrupt(), "C11": w_pure.World(), "C08": w_pythreads.World(), "C05": w_pymem.World("C05"), "C06": w_pymem.World("C06"), "C07": w_pymem.World("C07")}
    gc.collect()
    gc.freeze()
    if argv[1] == "replay":
        w = None
        for line in open(argv[-1]):
            if line.startswith("property "):
                w = worlds[line.split()[1]]
        w.start()
        Zygote.pool.append(Zygote(w, native))
        try:
            return replay(worlds, native, argv[-1], "-v" in argv)
        finally:
            w.finish()
    prop, seed, world = argv[2], int(argv[3]), worlds[argv[2]]
    world.start()
    for _ in range(1 if argv[1] == "plan" else 1 + int(argv[5])):
        Zygote.pool.append(Zygote(world, native))
    try:
        if argv[1] == "plan":
            plan = make_plan(world, prop, seed, int(argv[4]), len(argv) > 5 and argv[5] == "thorough")
            print("property %s\nseed %d index %s\n%s" % (prop, seed, argv[4], text(plan)), end="")
            o = run_plan(world, native, plan, len(argv) > 6)
            print("# status %d class %s: %s hash %s steps %d nontrivial %s" % (o.status, o.cls, o.detail, o.hash, o.steps, o.nontrivial))
            for k, v in sorted(o.counters.items()):
                print("#   %s %d" % (k, v))
            return o.status
        return batch(argv, world, native, prop, seed, int(argv[4]), int(argv[5]), argv[6] if len(argv) > 6 else "quick", argv[1] == "hashes")
    finally:
        world.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
