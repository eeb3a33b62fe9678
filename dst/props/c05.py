"""C05: a shared rate state is the integral of the sum of its users' rates."""
import upstage_des.api as UP
from upstage_des.state_sharing import SharedLinearChangingState

from dst.core import at, close

ID = "C05"
RUNS = {"quick": 48000, "thorough": 500000}
SHRINK = ["users", "periods", "faults", "reads", "assigns"]
RULE = ("1-6 task processes on one or two actors share 1-2 states: each activates, holds and deactivates (or is ended "
        "or restarted by an interrupt, or runs out) one to three times at colliding times, with random reads, "
        "assignments, refused double activations and refused foreign deactivations; compared with the exact "
        "integral at every read and at the end of every instant in which something happened. Non-trivial: two "
        "users overlapped.")
REAL = ["upstage_des SharedLinearChangingState, actor locks, task interrupt handling; simpy kernel"]
STUB = []
ASSUME = ["times and rates are dyadic in exact mode, so equality is exact; otherwise relative 1e-9"]
STATES = ["fuel", "load"]


class Tank(UP.Actor):
    fuel = SharedLinearChangingState()
    load = SharedLinearChangingState(recording=True)


def gen(rng, tier):
    exact = rng.random() < 0.8

    def num(a, b):
        return rng.randint(a * 8, b * 8) / 8 if exact else rng.uniform(a, b)

    na = rng.randint(1, 2)
    users = []
    for _ in range(rng.randint(1, 6)):
        users.append(dict(a=rng.randrange(na), t0=float(rng.randint(0, 4)), periods=[
            dict(s=rng.choice(STATES), rate=rng.choice([num(-4, 4), 0.0, 1.0]), d=rng.choice([num(0, 6), float(rng.randint(0, 4))]),
                 gap=float(rng.randint(0, 3)), both=rng.random() < 0.3, twice=rng.random() < 0.2,
                 off=rng.choice(["state", "states", "all", "none"]))
            for _ in range(rng.randint(1, 3))], answers=[rng.choice("EIR") for _ in range(4)]))
    faults = [dict(t=rng.choice([num(0, 16), float(rng.randint(0, 16))]), u=rng.randrange(len(users)),
                   depth=rng.randint(0, 2), prio=rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 6))]
    reads = [dict(t=rng.choice([num(0, 16), float(rng.randint(0, 16))]), a=rng.randrange(na), s=rng.choice(STATES),
                  how=rng.choice(["get", "all", "record", "foreign"]), depth=rng.randint(0, 2))
             for _ in range(rng.randint(0, 12))]
    assigns = [dict(t=num(0, 16), a=rng.randrange(na), s=rng.choice(STATES), v=float(num(-9, 9)))
               for _ in range(rng.choice([0, 0, 1, 2]))]
    # rates of a very different magnitude than the times
    scale = rng.choice([1.0] * 5 + [2.0 ** -30, 2.0 ** 20])
    for u in users:
        for p in u["periods"]:
            p["rate"] *= scale
    return dict(na=na, exact=exact, users=users, faults=faults, reads=reads, assigns=assigns,
                look=rng.choice(["always", "never", "some"]), init=[float(num(-5, 5)), float(num(0, 50))])


class Model:
    def __init__(self, v):
        self.v, self.t, self.rates = v, 0.0, {}

    def now(self, t):
        return self.v + sum(self.rates.values()) * (t - self.t)

    def move(self, t):
        self.v, self.t = self.now(t), t

    def on(self, t, k, r):
        self.move(t)
        self.rates[k] = r

    def off(self, t, k):
        self.move(t)
        self.rates.pop(k, None)


class Use(UP.Task):
    def task(self, *, actor):
        w, k, spec = actor.w, self.k, self.spec
        ctx = w.ctx
        for p in spec["periods"]:
            names = STATES if p["both"] else [p["s"]]
            for s in names:
                actor.activate_state(state=s, task=self, rate=p["rate"])
                m = w.models[(spec["a"], s)]
                m.on(self.env.now, k, p["rate"])
                if len(m.rates) > 1:
                    ctx.nontrivial = True
                    ctx.cover("overlap")
            if p["twice"]:
                try:
                    actor.activate_state(state=p["s"], task=self, rate=99.0 if p["d"] > 1 else p["rate"])
                except UP.SimulationError:
                    ctx.cover("refused-twice")
                else:
                    ctx.violate("double-contribution", f"task {k} activated {p['s']} twice")
            yield UP.Wait(p["d"])
            if p["off"] == "all" or (p["off"] == "none" and p is not spec["periods"][-1]):
                actor.deactivate_all_states(task=self)
            elif p["off"] == "states":
                actor.deactivate_states(states=names, task=self)
            elif p["off"] == "state":
                for s in names:
                    actor.deactivate_state(state=s, task=self)
            else:
                return  # a task that ends by itself does not stop its states
            for s in names:
                w.models[(spec["a"], s)].off(self.env.now, k)
            yield UP.Wait(p["gap"])

    def on_interrupt(self, *, actor, cause):
        w, k = actor.w, self.k
        ans = w.answers[k].pop(0) if w.answers[k] else "E"
        w.ctx.log(self.env.now, "interrupt", k, ans)
        if ans == "I":
            return self.INTERRUPT.IGNORE
        for s in STATES:
            if k in w.models[(self.spec["a"], s)].rates:
                w.ctx.cover("interrupted-while-active")
                w.models[(self.spec["a"], s)].off(self.env.now, k)
        return self.INTERRUPT.END if ans == "E" else self.INTERRUPT.RESTART


class World:
    pass


def run(plan, ctx):
    eq = (lambda a, b: a == b) if plan["exact"] else (lambda a, b: close(a, b, 1e-9))
    with ctx.context() as env:
        w = World()
        w.ctx = ctx
        w.answers = {k: list(u["answers"]) for k, u in enumerate(plan["users"])}
        actors = [Tank(name=f"t{i}", fuel=plan["init"][0], load=plan["init"][1]) for i in range(plan["na"])]
        w.models = {(i, s): Model(plan["init"][j]) for i in range(plan["na"]) for j, s in enumerate(STATES)}
        for a in actors:
            a.w = w

        def check(i, s, got, how):
            want = w.models[(i, s)].now(env.now)
            ctx.check(eq(got, want), "wrong-value",
                      f"t={env.now}: {how} t{i}.{s} gave {got!r}, the sum of its users gives {want!r}")

        procs = {}

        def start(k, u):
            task = Use()
            task.k, task.spec = k, u
            procs[k] = task.run(actor=actors[u["a"]])

        for k, u in enumerate(plan["users"]):
            at(env, u["t0"], lambda k=k, u=u: start(k, u))

        def hit(f):
            p = procs.get(f["u"])
            if p is not None and p.is_alive:
                ctx.fault("interrupt")
                p.interrupt()

        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: hit(f), f["depth"], f["prio"])

        def read(r):
            a = actors[r["a"]]
            if r["how"] == "get":
                check(r["a"], r["s"], getattr(a, r["s"]), "read")
            elif r["how"] == "all":
                for s, v in a.state_values.items():
                    check(r["a"], s, v, "state_values")
            elif r["how"] == "record":
                a.record_state(r["s"])
            else:
                try:
                    a.deactivate_state(state=r["s"], task=UP.Task())
                except UP.UpstageError:
                    ctx.cover("refused-foreign")
                else:
                    ctx.violate("not-refused", "a task that never used the state deactivated it")

        for r in plan["reads"]:
            ctx.fault("observation")
            at(env, r["t"], lambda r=r: read(r), r["depth"])

        def assign(x):
            m = w.models[(x["a"], x["s"])]
            m.move(env.now)
            setattr(actors[x["a"]], x["s"], x["v"])
            m.v = x["v"]

        for x in plan["assigns"]:
            at(env, x["t"], lambda x=x: assign(x))

        def instant():
            if plan["look"] == "never" or (plan["look"] == "some" and (env.now * 8) % 3):
                return
            for i, a in enumerate(actors):
                for s in STATES:
                    check(i, s, getattr(a, s), "end of instant")

        env._hooks.append(instant)
        ctx.drive(env)
        env.run(until=env.now + 2.5)
        for i, a in enumerate(actors):
            for s in STATES:
                check(i, s, getattr(a, s), "final read")
                ctx.log(i, s, getattr(a, s))
            hist = a._state_histories["load"]
            ts = [t for t, _ in hist]
            ctx.check(ts == sorted(ts), "history-out-of-order", f"t{i}: {hist}")
