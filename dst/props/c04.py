"""C04: a linearly changing state is the exact integral of its rate, however it is observed."""
import upstage_des.api as UP
from upstage_des.states import ActiveStatus

from dst.core import at, close

ID = "C04"
RUNS = {"quick": 65000, "thorough": 800000}
SHRINK = ["ops", "reads", "slices"]
RULE = ("1-3 linear states (plain and recording) on 1-2 actors; up to 25 activations, deactivations, assignments by "
        "up to 4 tasks at colliding times, and an independent random set of reads, record_state calls, whole-actor "
        "reads and clones; compared at every read with an exact piecewise-linear model and, at the end, with the same "
        "run without any observation. Non-trivial: a read or assignment fell strictly inside an active period.")
REAL = ["upstage_des actor, states (LinearChangingState, SharedLinearChangingState), data recording"]
STUB = []
ASSUME = ["times and rates are dyadic rationals in exact mode, so equality is exact; otherwise relative 1e-9"]

STATES = ["p", "q", "r"]


class Lin(UP.Actor):
    p = UP.LinearChangingState()
    q = UP.LinearChangingState(recording=True)
    r = UP.LinearChangingState(recording=True, record_duplicates=True)


def gen(rng, tier):
    exact = rng.random() < 0.8
    def num(a, b):
        return rng.randint(a * 8, b * 8) / 8 if exact else rng.uniform(a, b)
    horizon = rng.choice([4, 10, 30])
    na = rng.randint(1, 2)
    ops = []
    for _ in range(rng.randint(1, 25)):
        ops.append(dict(t=rng.choice([num(0, horizon), float(rng.randint(0, horizon))]), a=rng.randrange(na),
                        s=rng.choice(STATES), op=rng.choice(["on", "on", "on", "off", "off", "assign", "offall"]),
                        rate=rng.choice([num(-4, 4), num(0, 4), 0.0]), val=num(-9, 9), task=rng.randrange(4)))
    reads = []
    for _ in range(rng.randint(0, 30)):
        reads.append(dict(t=rng.choice([num(0, horizon), float(rng.randint(0, horizon))]), a=rng.randrange(na),
                          s=rng.choice(STATES), how=rng.choice(["get", "get", "all", "record", "clone", "data"]),
                          depth=rng.randint(0, 2), prio=rng.choice([0, 1, 2])))
    # rates and values of a very different magnitude than the times
    scale = rng.choice([1.0] * 5 + [2.0 ** -30, 2.0 ** 20])
    for o in ops:
        o["rate"] *= scale
        o["val"] *= scale if rng.random() < 0.5 else 1.0
    return dict(na=na, exact=exact, horizon=horizon + 1, init=[num(-5, 5) for _ in range(3)], ops=ops, reads=reads,
                t0=rng.choice([0.0, 0.0, 100.0]), slices=[num(0, horizon) for _ in range(rng.randint(0, 3))])


class Model:
    """value + rate since; and every value it had at the current instant."""

    def __init__(self, v, t):
        self.v, self.t, self.rate, self.owner = v, t, 0.0, None
        self.seen = {t: [v]}

    def now(self, t):
        return self.v + self.rate * (t - self.t)

    def move(self, t):
        self.v, self.t = self.now(t), t
        self.seen.setdefault(t, []).append(self.v)


def simulate(plan, ctx, observe):
    final = {}
    with ctx.context(initial_time=plan["t0"]) as env:
        eq = (lambda a, b: a == b) if plan["exact"] else (lambda a, b: close(a, b, 1e-9))
        actors = [Lin(name=f"a{i}", **dict(zip(STATES, plan["init"]))) for i in range(plan["na"])]
        tasks = [[UP.Task() for _ in range(4)] for _ in actors]
        models = {(i, s): Model(plan["init"][j], env.now) for i in range(plan["na"]) for j, s in enumerate(STATES)}
        fn = {}
        for key in models:
            fn[key] = []

        def value(i, s):
            return models[(i, s)].now(env.now)

        def check(i, s, got, how):
            want = value(i, s)
            ctx.check(eq(got, want), "wrong-value", f"t={env.now}: {how} of a{i}.{s} gave {got!r}, integral is {want!r}")

        def refuse(f, what):
            try:
                f()
            except UP.SimulationError:
                ctx.cover("refused-" + what)
                return
            ctx.violate("not-refused", f"t={env.now}: {what} was accepted")

        def do(o):
            i, s, a, m = o["a"], o["s"], actors[o["a"]], models[(o["a"], o["s"])]
            task = tasks[i][o["task"]]
            t = env.now
            if o["op"] == "on":
                act = lambda: a.activate_linear_state(state=s, rate=o["rate"], task=task)
                if m.owner is not None:
                    refuse(act, "second-activation")
                    return
                act()
                m.move(t)
                m.owner, m.rate = o["task"], o["rate"]
            elif o["op"] == "off":
                off = lambda: a.deactivate_state(state=s, task=task)
                if m.owner != o["task"]:
                    refuse(off, "foreign-deactivation")
                    return
                off()
                m.move(t)
                m.owner, m.rate = None, 0.0
            elif o["op"] == "offall":
                a.deactivate_all_states(task=task)
                for s2 in STATES:
                    m2 = models[(i, s2)]
                    if m2.owner == o["task"]:
                        m2.move(t)
                        m2.owner, m2.rate = None, 0.0
            else:
                m.move(t)
                if m.owner is not None and m.rate and observe:
                    ctx.nontrivial = True
                    ctx.cover("assigned-while-active")
                setattr(a, s, o["val"])
                m.v, m.t = o["val"], t
                m.seen[t].append(m.v)
            fn[(i, s)].append(t)

        def read(r):
            i, s, a = r["a"], r["s"], actors[r["a"]]
            m = models[(i, s)]
            if m.owner is not None and m.rate and env.now > m.t:
                ctx.nontrivial = True
                ctx.cover("read-while-active")
            if r["how"] == "get":
                check(i, s, getattr(a, s), "read")
            elif r["how"] == "all":
                vals = a.state_values
                for s2 in STATES:
                    check(i, s2, vals[s2], "state_values")
            elif r["how"] == "record":
                a.record_state(s)
            elif r["how"] == "clone":
                c = a.clone()
                for s2 in STATES:
                    check(i, s2, getattr(c, s2), "clone's copy")
            else:
                a.get_active_state_data(s)
            for s2 in STATES if r["how"] in ("all", "clone") else [s]:
                m2 = models[(i, s2)]
                m2.seen.setdefault(env.now, []).append(m2.now(env.now))

        for o in plan["ops"]:
            at(env, plan["t0"] + o["t"], lambda o=o: do(o))
        if observe:
            for r in plan["reads"]:
                ctx.fault("observation")
                at(env, plan["t0"] + r["t"], lambda r=r: read(r), r["depth"], r["prio"])
        ctx.drive(env, until=plan["t0"] + plan["horizon"], slices=[plan["t0"] + x for x in plan["slices"]])
        for i, a in enumerate(actors):
            for s in STATES:
                final[(i, s)] = getattr(a, s)
                check(i, s, final[(i, s)], "final read")
            if observe:
                for s in ("q", "r"):
                    hist = a._state_histories[s]
                    ts = [t for t, _ in hist]
                    ctx.check(ts == sorted(ts), "history-out-of-order", f"a{i}.{s}: {hist}")
                    m = models[(i, s)]
                    m.seen.setdefault(env.now, []).append(m.now(env.now))
                    for t, v in hist:
                        if isinstance(v, ActiveStatus):
                            continue
                        ctx.check(t in m.seen and any(eq(v, x) for x in m.seen[t]),
                                  "history-wrong-value", f"a{i}.{s} history says {v} at {t}, it was {m.seen.get(t)}")
        ctx.log(sorted(final.items()))
    return final


def run(plan, ctx):
    a = simulate(plan, ctx, True)
    b = simulate(plan, ctx, False)
    for k in a:
        ok = a[k] == b[k] if plan["exact"] else close(a[k], b[k], 1e-9)
        ctx.check(ok, "observation-changed-value", f"{k}: {a[k]!r} when observed, {b[k]!r} when not")
