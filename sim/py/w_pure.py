"""C11, Python side: every answer is compared with the one that a fresh process
gives to the same question, asked of fresh objects, in another order and with
nothing happening in between."""
import gc, os, pickle, random, sys

import numpy as np
import lsst.sphgeom as s
import asks, calls
import values as v
import w_transport


class World:
    arena = True        # an object often takes the address of one that is gone
    step_budget = 6_000_000_000
    rule = "a run is non-trivial when at least three questions were asked after objects had changed, gone or misbehaved"
    real = "the library, its Python bindings and its Python modules, pickle, yaml, hpgeom, numpy"
    stub = "the user of the package"
    state_measure = "distinct (question, type of object, what happened before it) tuples"

    def start(self):
        pass

    def finish(self):
        pass

    def generate(self, r, thorough):
        plan = []
        n = r.choice([2, 3, 4])
        theme = r.randrange(len(asks.QUESTIONS)) if r.randrange(2) else -1
        kind = r.randrange(len(asks.PARTS)) if r.randrange(2) else -1
        pool = [r.randrange(1 << 20) for _ in range(3)]

        def seed():
            # From a few seeds: equal questions come again.
            return r.choice(pool) if r.randrange(3) else r.randrange(1 << 20)
        for i in range(n):
            plan.append(("part", i, r.randrange(len(asks.PARTS)), seed()))
        if r.randrange(3) == 0:
            # One object asked about others that come, change and go.
            theme = r.choice([0, 0, 0, 4, 5, 6, 7, 9, 10, 11, 12, 14, r.randrange(len(asks.QUESTIONS))])
            plan[:2] = [("part", 0, r.choice([0, 0, 1, 5, 4, 2]), seed()), ("part", 1, r.choice([2, 3, 3, 3, 4]), seed())]
            q, a, b = seed(), 0, 1
            if r.randrange(3) == 0:
                a, b = b, a
            for _ in range(r.randrange(3, 9)):
                plan.append(("ask", a, b, theme, q if r.randrange(3) else seed(), r.randrange(3)))
                plan.append(r.choice([("part", 1, 3, seed()), ("part", 1, 3, r.randrange(1 << 20)), ("change", 1, r.randrange(1 << 16)), ("twin", 1, r.randrange(1 << 16)), ("part", r.randrange(2), r.randrange(6), seed())]))
        for _ in range(r.randrange(8, 30) if not thorough else r.randrange(8, 60)):
            k = r.randrange(20)
            if k < 10:
                plan.append(("ask", r.randrange(n), r.randrange(n), theme if theme >= 0 and r.randrange(4) else r.randrange(len(asks.QUESTIONS)), seed(), r.randrange(3)))
            elif k < 12:
                plan.append(("part", r.randrange(n), kind if kind >= 0 and r.randrange(3) else r.randrange(len(asks.PARTS)), seed()))
            elif k < 13:
                plan.append(("new", r.randrange(n), r.randrange(len(v.NAMES)), seed()))
            elif k < 15:
                plan.append(("twin", r.randrange(n), r.randrange(1 << 16)))
            elif k < 17:
                plan.append(("change", r.randrange(n), r.randrange(1 << 16)))
            elif k < 19:
                plan.append(("failing", r.randrange(len(calls.CALLS)), r.randrange(1 << 20), r.randrange(6)))
            else:
                plan.append(("junk", r.randrange(4), r.randrange(1 << 16)))
        return plan

    @staticmethod
    def questions(plan):
        """Every question of the plan with the histories of its two objects."""
        recipes, out = {}, []
        for op in plan:
            if op[0] in ("part", "new"):
                recipes[op[1]] = ((op[0], op[2], op[3]),)
            elif op[0] in ("twin", "change"):
                if op[1] in recipes:
                    recipes[op[1]] += ((op[0], op[2]),)
            elif op[0] == "ask" and op[1] in recipes and op[2] in recipes:
                out.append((op[3], recipes[op[1]], recipes[op[2]], op[1] == op[2], op[4]))
        return out

    @staticmethod
    def pristine(questions, order):
        """The answers of a process that does nothing else."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                kept, out = [], {}
                for i in order:
                    number, a, b, same, seed = questions[i]
                    x = asks.make(a)
                    y = x if same else asks.make(b)
                    kept.append((x, y))
                    out[i] = asks.ask(number, x, y, seed, kept)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(out))
                os._exit(0)
            finally:
                os._exit(1)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        return pickle.loads(data) if st == 0 and data else None

    def execute(self, plan, run):
        qs = self.questions(plan)
        n = len(qs)
        refs = [self.pristine(qs, range(n - 1, -1, -1))]
        if n:
            # ... and of one that is asked nothing else at all
            i = random.Random(repr(plan)).randrange(n)
            refs.append(self.pristine(qs, [i]))
        if None in refs:
            run.fail("died", "a process that was only asked these questions died")
        for i in refs[-1] if n else ():
            if refs[0][i] != refs[-1][i]:
                self.differ(run, i, qs[i], refs[0][i], refs[-1][i], "asked after others", "asked alone")
        objs, asked, disturbed = {}, 0, False
        kept = []
        for op in plan:
            run.simtime += 1
            if op[0] in ("part", "new"):
                o = objs.pop(op[1], None)
                del o                               # its memory is free for the next one
                objs[op[1]] = asks.make(((op[0], op[2], op[3]),))
            elif op[0] in ("twin", "change"):
                if op[1] in objs:
                    objs[op[1]] = asks.apply(objs[op[1]], (op[0], op[2]))
                    disturbed = True
                    run.count("object." + op[0])
            elif op[0] == "failing":
                self.failing(run, *op[1:])
                disturbed = True
            elif op[0] == "junk":
                self.junk(op[1], random.Random(op[2]), kept)
                run.count("memory.disturbed")
            elif op[0] == "ask" and op[1] in objs and op[2] in objs:
                x, y = objs[op[1]], objs[op[2]]
                before = v.look(x), v.look(y)
                answers = []
                got = asks.ask(op[3], x, y, op[4], answers)
                if got != refs[0][asked]:
                    self.differ(run, asked, qs[asked], got, refs[0][asked], "in this history", "in a fresh process")
                if op[5]:
                    asks.scribble(answers, random.Random(op[4]))
                    run.count("answers.changed_by_caller")
                if (v.look(x), v.look(y)) != before:
                    # (an answer may be the object itself only where the call says so: none here does)
                    if op[5] and not any(a is x or a is y for a in answers):
                        run.fail("answer-aliases", "changing the answers to question %s of %r and %r changed the object itself" % (asks.name(op[3]), before[0], before[1]))
                    run.fail("asking-changed-object", "question %s changed %r, %r to %r, %r" % (asks.name(op[3]), before[0], before[1], v.look(x), v.look(y)))
                run.event("ask", op[3], asked, str(got)[:2000])
                run.state(asks.name(op[3]), type(x).__name__, disturbed)
                asked += 1
                if disturbed and asked >= 3:
                    run.nontrivial = True
                del answers, x, y

    def differ(self, run, i, q, a, b, wa, wb):
        for x, y in zip(a, b):
            if x != y:
                run.fail("answer-differs", "question %d (%s, seed %d, objects %s and %s) got %s %s but %s %s" % (i, asks.name(q[0]), q[4], q[1], q[2], str(x)[:500], wa, str(y)[:500], wb))
        run.fail("answer-differs", "question %d (%s) got %d answers %s but %d %s" % (i, asks.name(q[0]), len(a), wa, len(b), wb))

    def failing(self, run, call, seed, at):
        """A call that fails because of what it was given."""
        ctl = calls.Ctl()
        ctl.at = at

        def act(kind):
            raise calls.Boom(kind)
        ctl.act = act
        b = calls.build(call, seed, ctl, [])
        if b is None:
            return
        try:
            b[0]()
        except Exception as e:
            run.count("call.failed")
            run.event("failing", calls.name(call), type(e).__name__)

    def junk(self, kind, r, kept):
        if kind == 0:
            gc.collect()
        elif kind == 1:
            kept.clear()
        elif kind == 2:
            kept.append([v.make(r.randrange(99), r.randrange(999)) for _ in range(r.randrange(1, 12))])
        else:
            x = [bytes([r.randrange(256)]) * r.choice([16, 40, 64, 96, 200, 1000]) for _ in range(30)]
            del x
