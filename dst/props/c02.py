"""C02: interrupt answers end, ignore, restart; markers; exactly-once delivery to the handler."""
import simpy
import upstage_des.api as UP

from dst.core import at

ID = "C02"
RUNS = {"quick": 48000, "thorough": 500000}
SHRINK = ["tasks", "steps", "faults", "succeed", "feed"]
RULE = ("1-4 tasks of 2-7 steps (waits, events with payloads, any/all, store gets, sub-tasks, nested routines, "
        "markers) on a coarse time grid; up to 12 interrupts with chosen answers, early/late/inside an instant. The "
        "run is repeated with ignored interrupts left out and restarts replaced by end + fresh start; the logs of "
        "every task must be equal. Non-trivial: at least one interrupt was delivered to a running task.")
REAL = ["upstage_des task, events, routines, actor log; simpy processes, conditions, stores"]
STUB = []
ASSUME = ["SimPy 4.1.1 is the event kernel actually used",
          "interrupts reach the task while it executes its own steps, not during its routine's clean-up"]


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0, 1.0])
    tasks = []
    for k in range(rng.randint(1, 4)):
        steps = []
        for _ in range(rng.randint(2, 7)):
            op = rng.choice(["wait", "wait", "event", "any", "all", "get", "anyget", "proc", "routine", "mark",
                             "mark", "unmark", "deep", "guard"])
            d = grid * rng.randint(0 if op == "wait" else 1, 5)
            steps.append([op, d, grid * rng.randint(1, 4), rng.choice("EIR"), rng.randrange(3)])
        tasks.append(dict(t0=grid * rng.randint(0, 3), steps=steps, loops=rng.randint(1, 2),
                          default_handler=rng.random() < 0.3, net=rng.random() < 0.3,
                          succeed=[[grid * rng.randint(0, 16), rng.randrange(3)] for _ in range(rng.randint(0, 5))],
                          feed=[grid * rng.randint(0, 16) for _ in range(rng.randint(0, 5))]))
    burst = rng.random() < 0.3
    faults, seen = [], set()
    for i in range(rng.randint(1, 12)):
        f = dict(t=grid * rng.randint(0, 14), task=rng.randrange(len(tasks)), ans=rng.choice("EIIRR"),
                 depth=rng.choice([0, 0, 0, 1, 1, 2, 3]), prio=rng.choice([0, 1, 1, 2]), n=i)
        if rng.random() < 0.25:
            f["t"] += grid / 2
        if not burst and f["ans"] != "I":
            if (f["t"], f["task"]) in seen:
                f["ans"] = "I"
            seen.add((f["t"], f["task"]))
        faults.append(f)
    if not burst:  # tasks with the default handler answer by marker, so cannot be compared per fault
        for t in tasks:
            if t["default_handler"]:
                for s in t["steps"]:
                    s[3] = "I" if s[3] == "R" else s[3]
    return dict(tasks=tasks, faults=faults, burst=burst)


FALSY = [0, "", (), False, "x", 0.0]


class Doer(UP.Actor):
    note = UP.State(default=0)


class Inner(UP.Task):
    def task(self, *, actor):
        d, rec = actor.todo
        yield UP.Wait(d)
        rec("child-done")
        return FALSY[int(d * 2) % len(FALSY)]

    def on_interrupt(self, *, actor, cause):
        actor.todo[1]("child-interrupted", cause_id(cause))
        return self.INTERRUPT.END


class Rout(UP.Routine):
    def __init__(self, rec, d1, d2):
        super().__init__()
        self.rec, self.d1, self.d2 = rec, d1, d2

    def run(self):
        yield UP.Wait(self.d1)
        self.rec("routine-half")
        yield UP.Any(UP.Wait(self.d2), UP.Wait(self.d2 + 1))
        return ("routine", self.d1, self.d2)

    def cancel(self):
        self.rec("routine-cancel")
        return
        yield


def cause_id(c):
    return c["n"] if isinstance(c, dict) else c


class Prog(UP.Task):
    def task(self, *, actor):
        w, spec = actor.w, actor.spec
        if actor.net and actor.life == actor.life0:
            w.procs[actor.k] = (self.env.active_process, actor)
            w.carry(actor, self)
        actor.life += 1
        life = actor.life
        rec = actor.rec
        w.ctx.check(actor.open == 0, "late-clean-up", f"{actor.name} begins with {actor.open} finally blocks of earlier lives not run")
        rec("start")
        for lo in range(spec["loops"]):
            for i, (op, d, d2, act, slot) in enumerate(spec["steps"]):
                t = self.env.now
                val = yield from self.step(actor, rec, op, d, d2, act, slot)
                if op == "wait":
                    w.ctx.check(self.env.now == t + d, "wrong-duration", f"wait {d} from {t} ended {self.env.now}")
                w.ctx.check(actor.life == life, "ran-after-end", f"an earlier life of {actor.name} continued")
                rec("step", lo, i, op, val)
        rec("finished")

    def step(self, actor, rec, op, d, d2, act, slot):
        if op == "wait":
            got = yield UP.Wait(d)
            return repr(got)
        if op == "event":
            ev = actor.events[slot] = UP.Event()
            tmo = UP.Wait(d + 6)
            yield UP.Any(ev, tmo)
            return (ev.is_complete(), dict(ev.get_payload()) if ev.is_complete() else None)
        if op == "any":
            a, b = UP.Wait(d), UP.Wait(d2)
            yield UP.Any(a, b)
            return (a.is_complete(), b.is_complete())
        if op == "all":
            a, b = UP.Wait(d), UP.Wait(d2)
            yield UP.All(a, b)
            return (a.is_complete(), b.is_complete())
        if op == "deep":
            ev = actor.events[slot] = UP.Event()
            a, b = UP.Wait(d), UP.Wait(d2)
            yield UP.Any(UP.All(a, b), UP.Any(ev, UP.Wait(d + d2)))
            return (a.is_complete(), b.is_complete(), ev.is_complete())
        if op == "get":
            g = UP.Get(actor.store)
            item = yield g
            actor.w.ctx.check(item is g.get_value(), "wrong-item", f"yielding a get gave {item!r}, it was given {g.get_value()!r}")
            return item
        if op == "anyget":
            g = UP.Get(actor.store)
            yield UP.Any(g, UP.Wait(d))
            if g.is_complete():
                return g.get_value()
            g.cancel()
            return None
        if op == "proc":
            a = Doer(name="child")
            a.todo = (d, rec)
            p = Inner().run(actor=a)
            got = yield p
            return ("proc", got)
        if op == "routine":
            val = yield Rout(rec, d, d2)
            return val
        if op == "guard":
            # (clean-up ends with the life of the task that it is part of)
            actor.open += 1
            try:
                yield UP.Wait(d)
            finally:
                actor.open -= 1
        if op == "mark":
            name = f"m{d}-{act}" if slot else ""
            if act == "E" and d2 == d:
                self.set_marker(name)
            else:
                self.set_marker(name, {"E": self.INTERRUPT.END, "I": self.INTERRUPT.IGNORE,
                                       "R": self.INTERRUPT.RESTART}[act])
            actor.marker = (name, self.env.now, act)
        if op == "unmark":
            self.clear_marker()
            actor.marker = (None, None, "E")
        return None

    def pre(self, actor, cause):
        w = actor.w
        mk = (self.get_marker(), self.get_marker_time())
        w.ctx.check(mk == actor.marker[:2], "wrong-marker", f"reported {mk}, last set {actor.marker}")
        actor.handled.append(cause_id(cause))
        w.ctx.cover("delivered")
        w.ctx.nontrivial = True

    def on_interrupt(self, *, actor, cause):
        self.pre(actor, cause)
        return actor.w.answer(actor, cause["ans"], self)


class DefaultProg(Prog):
    """The answer comes from the marker, through the default handler."""

    def on_interrupt(self, *, actor, cause):
        self.pre(actor, cause)
        ans = UP.Task.on_interrupt(self, actor=actor, cause=cause)
        want = {"E": self.INTERRUPT.END, "I": self.INTERRUPT.IGNORE, "R": self.INTERRUPT.RESTART}[actor.marker[2]]
        actor.w.ctx.check(ans == want, "wrong-marker-action", f"default handler said {ans!r}, marker {actor.marker}")
        ch = "E" if ans == self.INTERRUPT.END else "I" if ans == self.INTERRUPT.IGNORE else "R"
        actor.w.answers[(actor.k, cause["n"])] = ch
        return actor.w.answer(actor, ch, self)


class World:
    def __init__(self, plan, ctx, ref):
        self.plan, self.ctx, self.ref = plan, ctx, ref
        self.answers = {}
        self.logs = {}
        self.actors = []
        self.procs = {}
        self.dead = {}
        self.reborn = {}

    def answer(self, a, ch, task):
        if not self.ref:
            a.rec_always("answer", ch)
        if ch == "I":
            return task.INTERRUPT.IGNORE
        a.events.clear()
        if ch == "E" or self.ref:
            a.ended_at = self.env.now
            a.quiet = True
            if ch == "R":  # reference: end, then start afresh
                self.start(a.k, a.life, a.marker, a.store)
            return task.INTERRUPT.END
        a.rec_always("RESTART")
        a.must_start = self.env.now
        return task.INTERRUPT.RESTART

    def start(self, k, life=0, marker=(None, None, "E"), store=None):
        spec = self.plan["tasks"][k]
        a = Doer(name=f"d{k}")
        log = self.logs.setdefault(k, [])
        a.w, a.k, a.spec, a.life, a.marker = self, k, spec, life, (None, None, "E")
        a.open = 0
        a.net, a.life0 = spec.get("net", False), life
        a.events, a.handled, a.ended_at, a.quiet, a.must_start = {}, [], None, False, None
        a.store = store if store is not None else simpy.Store(self.env)
        ctx, env = self.ctx, self.env

        def rec(*x):
            if a.quiet and x[0] not in ("child-interrupted", "routine-cancel"):
                ctx.violate("step-after-end", f"t={env.now}: task {k} did {x} after it was told to end at {a.ended_at}")
            if a.must_start is not None and x[0] not in ("child-interrupted", "routine-cancel"):
                ctx.check(x[0] == "start" and env.now == a.must_start, "restart-not-from-first-step",
                          f"t={env.now}: {x} after restart at {a.must_start}")
                a.must_start = None
            log.append((env.now,) + x)
            ctx.log(env.now, k, *x)

        a.rec = rec
        a.rec_always = lambda *x: ctx.log(env.now, k, *x)
        cls = DefaultProg if spec["default_handler"] else Prog
        a.carried = marker
        self.actors.append(a)
        if a.net:
            net = UP.TaskNetworkFactory.from_single_terminating(f"net{k}", cls).make_network()
            a.add_task_network(net)
            a.start_network_loop(net.name, init_task_name=cls.__name__)
            return
        task = cls()
        self.carry(a, task)
        self.procs[k] = (task.run(actor=a), a)

    def carry(self, a, task):
        marker = a.carried
        if self.ref and marker[0] is not None:  # markers outlive a restart
            task.set_marker(marker[0], {"E": task.INTERRUPT.END, "I": task.INTERRUPT.IGNORE,
                                        "R": task.INTERRUPT.RESTART}[marker[2]])
            a.marker = (marker[0], self.env.now, marker[2])


def simulate(plan, ctx, ref=False, answers=None):
    w = World(plan, ctx, ref)
    with ctx.context() as env:
        w.env = env
        for k, spec in enumerate(plan["tasks"]):
            at(env, spec["t0"], lambda k=k: w.start(k))
            for t, slot in spec["succeed"]:
                def fire(k=k, slot=slot, t=t):
                    if k in w.procs:
                        ev = w.procs[k][1].events.pop(slot, None)
                        if ev is not None:
                            ev.succeed(slot=slot, t=t)
                at(env, t, fire)
            for t in spec["feed"]:
                def feed(k=k, t=t):
                    if k in w.procs:
                        w.procs[k][1].store.put(FALSY[int(t * 4) % len(FALSY)])
                at(env, t, feed)

        sent = {}

        def hit(f):
            k = f["task"]
            p, a = w.procs.get(k, (None, None))
            if p is None or not p.is_alive:
                return
            if ref and w.answers_in.get((k, f["n"]), f["ans"]) == "I":
                return
            if not ref:
                ctx.fault("interrupt")
                ctx.cover(f"interrupt-depth{f['depth']}-prio{f['prio']}")
            sent.setdefault(k, []).append((f["n"], env.now))
            cause = dict(f)
            if ref:
                cause["ans"] = w.answers_in.get((k, f["n"]), f["ans"])
            p.interrupt(cause=cause)

        w.answers_in = answers or {}
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: hit(f), f["depth"], f["prio"])

        def instant():
            for k, (p, a) in w.procs.items():
                n = len(a.handled)
                if not ref:
                    want = [i for i, _ in sent.get(k, ())]
                    if a.handled != want:
                        # only interrupts after an end (or the finish) in that same instant may go unheard
                        ok = want[:n] == a.handled and not p.is_alive and all(
                            t == a.over_at for _, t in sent[k][n:]) if p.triggered else False
                        ctx.check(ok, "delivery", f"t={env.now}: sent {want}, handled {a.handled}")
                if p.triggered:
                    ctx.check(a.open == 0, "late-clean-up", f"t={env.now}: task {k} is over, {a.open} finally blocks have not run")
                if a.ended_at is not None:
                    ctx.check(p.triggered, "alive-after-end", f"t={env.now}: task {k} was told to end at {a.ended_at}")
                ctx.check(a.must_start is None, "restart-not-at-once", f"t={env.now}: task {k}")

        def mark_over():
            for k, (p, a) in w.procs.items():
                if p.triggered and getattr(a, "over_at", None) is None:
                    a.over_at = env.now

        for_all = env._hooks
        for_all.append(mark_over)
        for_all.append(instant)
        ctx.drive(env)
    return w


def run(plan, ctx):
    w = simulate(plan, ctx)
    if plan["burst"]:
        ctx.cover("burst-runs")
        return
    r = simulate(plan, ctx, ref=True, answers=w.answers)
    for k in range(len(plan["tasks"])):
        # (when in its instant a sub-task hears of its interrupt depends on the network around)
        a, b = (sorted(x.logs.get(k, []), key=lambda e: (e[0], e[1] != "child-interrupted")) for x in (w, r))
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ctx.violate("differs-from-reference", f"task {k} entry {i}: {a[i:i+3]} with interrupts, "
                        f"{b[i:i+3]} in the run with end+fresh start and no ignored interrupts")
    ctx.cover("differential-runs")
