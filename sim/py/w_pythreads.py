"""C08, Python side: threads that ask questions of the same objects. One of them runs
at a time; the plan says at which bytecode of the package's Python modules (or at
which callback from the library into user code) it is stopped and which goes on."""
import _thread, os, random, sys

import lsst.sphgeom as s
import asks, calls, faulty
import values as v
from w_pure import World as Pure

PACKAGE = os.path.dirname(s.__file__) + os.sep
FAULTS = (MemoryError, KeyboardInterrupt, RuntimeError)


class World:
    step_budget = 6_000_000_000
    rule = "a run is non-trivial when at least one thread was stopped inside a call and another one asked something meanwhile"
    real = "the library, its Python bindings and its Python modules, pickle, yaml, hpgeom, numpy, CPython's threads"
    stub = "the choice of the thread that runs (made at every bytecode of the package's modules by the plan)"
    state_measure = "distinct (place where a thread was stopped, its question, the question of the thread that went on) tuples"

    def start(self):
        pass

    def finish(self):
        pass

    def generate(self, r, thorough):
        n, threads = r.choice([1, 2, 2, 3]), r.choice([2, 2, 3, 4])
        plan = [("part", i, r.choice([0, 0, 0, 1, 2, 2, 3, 5, r.randrange(len(asks.PARTS))]) if i else r.choice([0, 0, 0, 0, 1, r.randrange(len(asks.PARTS))]), r.randrange(1 << 20)) for i in range(n)]
        theme = r.choice([0, 0, 0, 3, 7, 7, 16, 16, r.randrange(len(asks.QUESTIONS))])
        pool = [r.randrange(1 << 20) for _ in range(2)]
        for t in range(threads):
            for _ in range(r.randrange(1, 4)):
                plan.append(("ask", t, r.randrange(n), r.randrange(n), theme if r.randrange(3) else r.randrange(len(asks.QUESTIONS)), r.choice(pool) if r.randrange(2) else r.randrange(1 << 20)))
        at = 0
        gaps = r.choice([[1, 2, 3], [1, 2, 5, 10, 30], [10, 30, 60, 100]])
        for _ in range(r.randrange(2, 40 if not thorough else 80)):
            at += r.choice(gaps) + r.randrange(3)
            plan.append(("switch", at, r.randrange(threads)))
        for _ in range(r.choice([0, 0, 1, 2])):
            plan.append(("fault", r.randrange(threads), r.randrange(1, 16), r.randrange(len(FAULTS))))
        return plan

    def execute(self, plan, run):
        recipes, todo, questions, switches, faults = {}, {}, [], {}, {}
        for op in plan:
            if op[0] == "part":
                recipes[op[1]] = (("part", op[2], op[3]),)
            elif op[0] == "ask" and op[2] in recipes and op[3] in recipes:
                todo.setdefault(op[1], []).append((len(questions), op[2], op[3], op[4], op[5]))
                questions.append((op[4], recipes[op[2]], recipes[op[3]], op[2] == op[3], op[5]))
            elif op[0] == "switch":
                switches.setdefault(op[1], op[2])
            elif op[0] == "fault":
                faults.setdefault((op[1], op[2]), op[3])
        if not questions:
            return
        want = Pure.pristine(questions, range(len(questions)))
        if want is None:
            run.fail("died", "a process in which one thread asked these questions died")
        objs = {i: asks.make(x) for i, x in recipes.items()}
        before = {i: v.look(o) for i, o in objs.items()}
        sch = Schedule(run, todo, objs, switches, faults)
        faulty.install(sch.called)
        sch.play()
        for i, (answers, fired) in sorted(sch.answers.items()):
            ref = want[i]
            odd = [k for k in range(max(len(answers), len(ref))) if k >= len(answers) or k >= len(ref) or answers[k] != ref[k]]
            if fired:
                # Only what the fault hit may differ.
                hit = [any(n in str(a) for n in sch.NAMES) for a in answers]
                odd = [k for k in odd if (k < len(answers) and not hit[k]) or (k >= len(answers) and not (hit and hit[-1]))]
            if odd:
                k = odd[0]
                run.fail("answer-differs", "question %d (%s, seed %d, objects %s and %s) got %s while other threads ran but %s alone" %
                         (i, asks.name(questions[i][0]), questions[i][4], questions[i][1], questions[i][2], str(answers[k:k + 1])[:500], str(ref[k:k + 1])[:500]))
        if len(sch.answers) != len(questions):
            run.fail("thread-died", "%d of %d questions were answered" % (len(sch.answers), len(questions)))
        for i, o in objs.items():
            if v.look(o) != before[i]:
                run.fail("object-changed", "%r changed to %r" % (before[i], v.look(o)))
        run.simtime += sch.points
        run.event("answers", sorted((i, repr(a)[:3000]) for i, a in sch.answers.items()), sch.points if not sch.blocked else "")
        run.count("thread.switched_inside_call", sch.switched)
        run.count("thread.blocked", sch.blocked)
        run.nontrivial = sch.switched > 0


class Schedule:
    NAMES = tuple(f.__name__ for f in FAULTS)

    def __init__(self, run, todo, objs, switches, faults):
        self.run, self.todo, self.objs, self.switches, self.faults = run, todo, objs, switches, faults
        self.ids = sorted(todo)
        self.state = {t: "new" for t in self.ids}       # new, waiting, running, done
        self.locks = {t: _thread.allocate_lock() for t in self.ids}
        self.main = _thread.allocate_lock()
        self.points, self.mine = 0, {t: 0 for t in self.ids}
        self.asking, self.fired = {t: "" for t in self.ids}, {t: 0 for t in self.ids}
        self.threads = {}
        self.answers, self.switched, self.blocked = {}, 0, 0

    def play(self):
        sys.setswitchinterval(100)
        for x in self.locks.values():
            x.acquire()
        self.main.acquire()
        self.go(self.ids[0])
        last, idle = -1, 0
        while not self.main.acquire(timeout=0.5):
            # A thread that waits for a lock of the library's own: let another one run.
            now = (self.points, len(self.answers))
            idle = idle + 1 if now == last else 0
            last = now
            if idle >= 4:
                idle = 0
                w = [t for t in self.ids if self.state[t] in ("waiting", "new")]
                if not w:
                    continue
                self.blocked += 1
                self.go(w[0])

    def go(self, t):
        """Thread t goes on."""
        new = self.state[t] == "new"
        self.state[t] = "running"
        if new:
            _thread.start_new_thread(self.body, (t,))
        else:
            self.locks[t].release()

    def body(self, t):
        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if f.startswith(PACKAGE):
                frame.f_trace_opcodes = True
                self.point(t, frame)
                return local
            if frame.f_code is calls.Ctl.hit.__code__:
                self.point(t, frame)
            return None

        def local(frame, event, arg):
            if event == "opcode":
                self.point(t, frame)
            return local

        self.threads[_thread.get_ident()] = t
        for i, a, b, number, seed in self.todo[t]:
            self.asking[t], self.fired[t] = asks.name(number), 0
            sys.settrace(tracer)
            try:
                x = asks.ask(number, self.objs[a], self.objs[b], seed, None, FAULTS, lambda: self.point(t, sys._getframe()))
            except BaseException as e:
                x = ["escaped " + repr(e)]
            sys.settrace(None)
            self.answers[i] = (x, self.fired[t])
        self.state[t] = "done"
        w = [u for u in self.ids if self.state[u] in ("waiting", "new")]
        if w:
            self.go(w[0])
        elif all(u == "done" for u in self.state.values()):
            self.main.release()

    def point(self, t, frame):
        n = self.points
        self.points += 1
        to = self.switches.get(n)
        if to in self.state and to != t and self.state[to] in ("new", "waiting"):
            self.switched += 1
            self.run.state(frame.f_code.co_name, frame.f_lasti, self.asking[t], self.asking[to] or self.todo[to][0][3])
            self.state[t] = "waiting"
            self.go(to)
            self.locks[t].acquire()

    def called(self, name):
        """A thread calls numpy or hpgeom."""
        t = self.threads.get(_thread.get_ident())
        if t is None:
            return
        self.mine[t] += 1
        f = self.faults.get((t, self.mine[t]))
        if f is not None:
            self.fired[t] += 1
            self.run.count("fault." + FAULTS[f].__name__)
            raise FAULTS[f]("simulated")
