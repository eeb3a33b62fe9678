"""C03: ending or restarting a task releases all and only that task's states and event."""
import upstage_des.api as UP
from upstage_des.state_sharing import SharedLinearChangingState

from dst.core import at, close

ID = "C03"
RUNS = {"quick": 21000, "thorough": 500000}
SHRINK = ["tasks", "steps", "faults", "succeed"]
RULE = ("2-5 tasks on 1-2 actors (plus one actor they mimic) switch on linear, shared, location and mimicking states, "
        "hold on knowledge events and waits, with up to 10 end/ignore/restart interrupts at colliding times; at the end "
        "of every instant all states and knowledge are compared with a model that knows which task owns what. "
        "Non-trivial: an interrupt ended or restarted a task while another task of the same actor owned something.")
REAL = ["upstage_des actor, task, states, state sharing, events; simpy kernel"]
STUB = []
ASSUME = ["times and rates are dyadic, so linear values are exact; locations compared to 1e-9"]

LIN = ["x", "y", "z"]
MIM = ["m", "n", "k"]
SPEED = 2.0


class Body(UP.Actor):
    x = UP.LinearChangingState(default=0.0)
    y = UP.LinearChangingState(default=0.0, recording=True)
    z = UP.LinearChangingState(default=0.0)
    s = SharedLinearChangingState(default=0.0)
    loc = UP.CartesianLocationChangingState()
    m = UP.State(default=-1.0)
    n = UP.State(default=-2.0, recording=True)
    k = UP.LinearChangingState(default=-3.0, recording=True)


class Star(UP.Actor):
    a = UP.LinearChangingState(default=10.0)
    b = UP.State(default=20.0, recording=True)
    c = UP.State(default=30.0)


def gen(rng, tier):
    na = rng.choice([1, 1, 2])
    names = ["K0", "K1", "K2"]
    tasks = []
    for i in range(rng.randint(2, 5)):
        steps = []
        for _ in range(rng.randint(2, 7)):
            op = rng.choice(["on", "on", "on", "off", "mimic", "mimic", "unmimic", "shared", "move", "hold", "hold",
                             "know", "offall", "wait", "wait", "holdany", "hold2"])
            st = dict(op=op, d=rng.randint(1, 12) / 4, r=rng.randint(-8, 8) / 4, s=rng.choice(LIN),
                      m=rng.choice(MIM), of=rng.choice(["a", "b", "c"]), name=rng.choice(names), name2=rng.choice(names))
            steps.append(st)
        tasks.append(dict(a=rng.randrange(na), t0=float(rng.randint(0, 2)), steps=steps, tail=float(rng.randint(1, 6)),
                          answers=[rng.choice("EEIRR") for _ in range(4)]))
    faults = [dict(t=rng.randint(0, 40) / 4, k=rng.randrange(len(tasks)), depth=rng.choice([0, 0, 1, 2]),
                   prio=rng.choice([0, 1, 1, 2])) for _ in range(rng.randint(1, 10))]
    succeed = [dict(t=rng.randint(0, 40) / 4, a=rng.randrange(na), name=rng.choice(names))
               for _ in range(rng.randint(0, 6))]
    sets = [dict(t=rng.randint(0, 40) / 4, s=rng.choice(["b", "c"]), v=rng.randint(0, 99) / 4)
            for _ in range(rng.randint(0, 5))]
    return dict(na=na, tasks=tasks, faults=faults, succeed=succeed, sets=sets, look=rng.choice([0, 1, 2, 3]),
                arate=rng.randint(-4, 4) / 4)


class Line:
    def __init__(self, v):
        self.v, self.t, self.rate, self.owner = v, 0.0, 0.0, None
        self.rates = {}

    def now(self, t):
        return self.v + (self.rate + sum(self.rates.values())) * (t - self.t)

    def move(self, t):
        self.v, self.t = self.now(t), t


class World:
    """The model: who owns what, and what everything is worth."""

    def __init__(self, plan, ctx, env, bodies, star):
        self.ctx, self.env, self.bodies, self.star = ctx, env, bodies, star
        self.lines = {(i, s): Line(0.0) for i in range(len(bodies)) for s in LIN + ["s"]}
        self.mim = {}
        for i in range(len(bodies)):
            self.mim[(i, "m")], self.mim[(i, "n")], self.mim[(i, "k")] = [None, None, -1.0], [None, None, -2.0], [None, None, -3.0]
        self.loc = {i: [None, 0.0, (0.0, 0.0)] for i in range(len(bodies))}  # owner, since, at
        self.know = {i: {} for i in range(len(bodies))}
        self.sv = {"a": Line(10.0), "b": Line(20.0), "c": Line(30.0)}
        self.waiting, self.within, self.cancelled = {}, {}, set()

    def locate(self, i):
        owner, since, (x, y) = self.loc[i]
        return (x + (SPEED * (self.env.now - since) if owner is not None else 0.0), y)

    def release(self, i, k):
        t = self.env.now
        for s in LIN:
            ln = self.lines[(i, s)]
            if ln.owner == k:
                ln.move(t)
                ln.owner, ln.rate = None, 0.0
        sh = self.lines[(i, "s")]
        if k in sh.rates:
            sh.move(t)
            del sh.rates[k]
        if self.loc[i][0] == k:
            self.loc[i] = [None, t, self.locate(i)]

    def release_mimics(self, i, k):
        for m in MIM:
            mm = self.mim[(i, m)]
            if mm[0] == k:
                mm[2] = self.sv[mm[1]].now(self.env.now)
                mm[0] = mm[1] = None

    def owns(self, i, k):
        return (any(self.lines[(i, s)].owner == k for s in LIN) or k in self.lines[(i, "s")].rates
                or self.loc[i][0] == k or any(self.mim[(i, m)][0] == k for m in MIM))

    def check(self):
        t, ctx = self.env.now, self.ctx
        for i, b in enumerate(self.bodies):
            for s in LIN + ["s"]:
                got, want = getattr(b, s), self.lines[(i, s)].now(t)
                ctx.check(got == want, "wrong-state-value", f"t={t}: b{i}.{s} is {got}, should be {want}")
            p, want = b.loc, self.locate(i)
            ctx.check(close(p.x, want[0], 1e-9) and close(p.y, want[1], 1e-9), "wrong-location", f"t={t}: b{i} at {p}, should be {want}")
            for m in MIM:
                mm = self.mim[(i, m)]
                want = mm[2] if mm[0] is None else self.sv[mm[1]].now(t)
                got = getattr(b, m)
                ctx.check(got == want, "wrong-mimic-value", f"t={t}: b{i}.{m} is {got}, should be {want} (mimicking {mm[1]})")
        self.check_knowledge()

    def check_knowledge(self):
        for i, b in enumerate(self.bodies):
            for name in ("K0", "K1", "K2", "F"):
                got, want = b.get_knowledge(name), self.know[i].get(name)
                ctx = self.ctx
                ctx.check(got is want, "wrong-knowledge", f"t={self.env.now}: b{i} knows {name}={got}, should be {want}")


class Act(UP.Task):
    def task(self, *, actor):
        w, k, spec = self.w, self.k, self.spec
        i, ctx, env = spec["a"], w.ctx, w.env
        for n, st in enumerate(spec["steps"]):
            op = st["op"]
            if op == "on":
                ln = w.lines[(i, st["s"])]
                try:
                    actor.activate_linear_state(state=st["s"], rate=st["r"], task=self)
                except UP.SimulationError:
                    ctx.check(ln.owner is not None, "refused-free-state", f"t={env.now}: b{i}.{st['s']} refused to task {k}")
                    ctx.cover("refused-locked")
                else:
                    ctx.check(ln.owner is None, "two-drivers", f"t={env.now}: b{i}.{st['s']} given to {k}, owner {ln.owner}")
                    ln.move(env.now)
                    ln.owner, ln.rate = k, st["r"]
            elif op == "shared":
                ln = w.lines[(i, "s")]
                if k not in ln.rates:
                    actor.activate_state(state="s", rate=st["r"], task=self)
                    ln.move(env.now)
                    ln.rates[k] = st["r"]
            elif op == "move":
                if w.loc[i][0] is None:
                    x, y = w.locate(i)
                    actor.activate_location_state(state="loc", speed=SPEED, task=self,
                                                  waypoints=[UP.CartesianLocation(x + 1000.0, y)])
                    w.loc[i] = [k, env.now, (x, y)]
            elif op == "off":
                ln = w.lines[(i, st["s"])]
                if ln.owner == k:
                    actor.deactivate_state(state=st["s"], task=self)
                    ln.move(env.now)
                    ln.owner, ln.rate = None, 0.0
            elif op == "offall":
                actor.deactivate_all_states(task=self)
                w.release(i, k)
            elif op == "mimic":
                mm = w.mim[(i, st["m"])]
                try:
                    actor.activate_mimic_state(self_state=st["m"], mimic_state=st["of"], mimic_actor=w.star, task=self)
                except UP.UpstageError:
                    ctx.check(mm[0] is not None, "refused-free-mimic", f"t={env.now}: b{i}.{st['m']}")
                else:
                    ctx.check(mm[0] is None, "two-mimics", f"t={env.now}: b{i}.{st['m']}")
                    mm[0], mm[1] = k, st["of"]
            elif op == "unmimic":
                mm = w.mim[(i, st["m"])]
                if mm[0] == k:
                    actor.deactivate_mimic_state(self_state=st["m"], task=self)
                    mm[2] = w.sv[mm[1]].now(env.now)
                    mm[0] = mm[1] = None
            elif op == "know":
                if st["name"] not in w.know[i]:
                    v = object()
                    actor.set_knowledge(st["name"], v)
                    w.know[i][st["name"]] = v
            elif op in ("hold", "holdany", "hold2"):
                if st["name"] not in w.know[i]:
                    ev = actor.create_knowledge_event(name=st["name"])
                    w.know[i][st["name"]] = ev
                    if op == "hold2" and st.get("name2") not in w.know[i]:
                        # the same event is known under two names
                        actor.set_knowledge(st["name2"], ev)
                        w.know[i][st["name2"]] = ev
                        ctx.cover("event-known-twice")
                    if op != "holdany":
                        w.waiting[k] = ev
                        yield ev
                        w.waiting.pop(k, None)
                    else:
                        w.within[k] = ev
                        yield UP.Any(ev, UP.Wait(st["d"]))
                        w.within.pop(k, None)
            else:
                yield UP.Wait(st["d"])
        yield UP.Wait(spec["tail"])

    def on_interrupt(self, *, actor, cause):
        w, k, i = self.w, self.k, self.spec["a"]
        ans = w.answers[k].pop(0) if w.answers[k] else "E"
        w.ctx.log(w.env.now, "interrupt", k, ans)
        if ans == "I":
            return self.INTERRUPT.IGNORE
        others = [q for q in range(len(w.answers)) if q != k and w.plan["tasks"][q]["a"] == i and w.owns(i, q)]
        if w.owns(i, k):
            w.ctx.cover("interrupted-owner")
            if others:
                w.ctx.nontrivial = True
                w.ctx.cover("other-task-owned-something")
        w.release(i, k)
        w.release_mimics(i, k)
        w.cancelled.add(w.within.pop(k, None))  # stays in knowledge, but is spent
        ev = w.waiting.pop(k, None)
        if ev is not None:
            for name in [n for n, v in w.know[i].items() if v is ev]:
                w.ctx.cover("event-knowledge-removed")
                del w.know[i][name]
        return self.INTERRUPT.END if ans == "E" else self.INTERRUPT.RESTART


def run(plan, ctx):
    with ctx.context() as env:
        bodies = [Body(name=f"b{i}", loc=UP.CartesianLocation(0.0, 0.0)) for i in range(plan["na"])]
        star = Star(name="star")
        w = World(plan, ctx, env, bodies, star)
        w.plan = plan
        w.answers = {k: list(t["answers"]) for k, t in enumerate(plan["tasks"])}
        drv = UP.Task()
        star.activate_linear_state(state="a", rate=plan["arate"], task=drv)
        w.sv["a"].rate = plan["arate"]
        for i, b in enumerate(bodies):
            forever = object()
            b.set_knowledge("F", forever)
            w.know[i]["F"] = forever
        procs = {}

        def start(k, spec):
            task = Act()
            task.w, task.k, task.spec = w, k, spec
            procs[k] = task.run(actor=bodies[spec["a"]])

        for k, spec in enumerate(plan["tasks"]):
            at(env, spec["t0"], lambda k=k, spec=spec: start(k, spec))

        def hit(f):
            p = procs.get(f["k"])
            if p is not None and p.is_alive:
                ctx.fault("interrupt")
                p.interrupt(cause="fault")

        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: hit(f), f["depth"], f["prio"])

        def succeed(x):
            i = x["a"]
            v = w.know[i].get(x["name"])
            if isinstance(v, UP.Event) and v not in w.cancelled:
                bodies[i].succeed_knowledge_event(name=x["name"])
                w.cancelled.add(v)  # a second name of it stays, but is spent
                del w.know[i][x["name"]]

        for x in plan["succeed"]:
            at(env, x["t"], lambda x=x: succeed(x))

        def assign(x):
            setattr(star, x["s"], x["v"])
            w.sv[x["s"]] = Line(x["v"])

        for x in plan["sets"]:
            at(env, x["t"], lambda x=x: assign(x))

        def instant():
            w.check_knowledge()
            if plan["look"] and int(env.now * 4) % plan["look"] == 0:
                w.check()

        env._hooks.append(instant)
        ctx.drive(env)
        env.run(until=env.now + 1.5)
        w.check()
