"""C07: a mimicking state equals its model while mimicking, and only then."""
import upstage_des.api as UP
from upstage_des.states import ActiveStatus

from dst.core import at, close

ID = "C07"
RUNS = {"quick": 10000, "thorough": 200000}
SHRINK = ["ops", "ghost", "reads"]
RULE = ("2-4 actors of one class with plain, recording, linear and moving states; up to 35 assignments, activations, "
        "mimic starts and stops (single and per task), chains of mimics, random reads at colliding times; before it, in "
        "the same process, another environment with same-named actors of the class leaves mimics running. Every read and "
        "all values at chosen instants compared with a model, histories of recording mimics with the changes of what "
        "they mimicked. Non-trivial: a mimicked state changed while mimicked.")
REAL = ["upstage_des actor (mimic states), states, state recording"]
STUB = []
ASSUME = ["times and values are dyadic, so equality is exact; locations to 1e-9",
          "a mimicking state is not itself assigned or activated while it mimics, and mimics form no cycle"]
PLAIN = ["u", "v", "w"]
ALL = ["u", "v", "w", "lin", "rlin"]
SPEED = 2.0


class M(UP.Actor):
    u = UP.State(default=0.0)
    v = UP.State(default=1.0, recording=True)
    w = UP.State(default=2.0, recording=True, record_duplicates=True, valid_types=(float,))
    lin = UP.LinearChangingState(default=3.0)
    rlin = UP.LinearChangingState(default=4.0, recording=True)
    loc = UP.CartesianLocationChangingState()
    ploc = UP.State(valid_types=UP.CartesianLocation, recording=True)


class N(M):
    """A subclass sharing the state descriptors of M."""


def gen_ops(rng, na, n):
    ops, tasks = [], rng.choice([1, 3, 3])
    for _ in range(n):
        ops.append(dict(t=rng.randint(0, 40) / 4, op=rng.choice(["set", "set", "set", "on", "off", "mimic", "mimic", "mimic",
                                                                 "unmimic", "unmimic", "endtask", "move", "locmimic"]),
                        i=rng.randrange(na), j=rng.randrange(na), s=rng.choice(ALL), s2=rng.choice(ALL),
                        v=rng.randint(-20, 20) / 4, k=rng.randrange(tasks)))
    ops.sort(key=lambda o: o["t"])
    return ops


def gen(rng, tier):
    na = rng.randint(2, 4)
    return dict(na=na, cls=[rng.randrange(2) for _ in range(na)], ops=gen_ops(rng, na, rng.randint(3, 35)),
                ghost=gen_ops(rng, na, rng.choice([0, 0, 4, 10])),
                reads=[dict(t=rng.randint(0, 44) / 4, i=rng.randrange(na), s=rng.choice(ALL + ["loc", "ploc"]),
                            depth=rng.randint(0, 2)) for _ in range(rng.randint(0, 15))],
                look=rng.choice([0, 0, 1, 3]))


class Line:
    def __init__(self, v):
        self.v, self.t, self.rate, self.owner = v, 0.0, 0.0, None

    def now(self, t):
        return self.v + self.rate * (t - self.t)

    def put(self, t, v):
        self.v, self.t = v, t


class World:
    def __init__(self, plan, ctx, env, main):
        self.plan, self.ctx, self.env, self.main = plan, ctx, env, main
        self.actors = [(M, N)[c](name=f"m{i}", loc=UP.CartesianLocation(float(i), 0.0), ploc=UP.CartesianLocation(0.0, float(i)))
                       for i, c in enumerate(plan["cls"])]
        self.tasks = [[UP.Task() for _ in range(3)] for _ in self.actors]
        self.lines, self.mim, self.task_of = {}, {}, {}
        for i in range(plan["na"]):
            for s, v in zip(ALL, (0.0, 1.0, 2.0, 3.0, 4.0)):
                self.lines[(i, s)] = Line(v)
        self.pos = {}
        for i in range(plan["na"]):
            self.pos[(i, "loc")] = [float(i), 0.0, 0.0, False]   # x, y, since, moving
            self.pos[(i, "ploc")] = [0.0, float(i), 0.0, False]
        self.must = []    # history entries that have to be there
        self.seen = {}    # (i, s) -> {t: values it had}
        self.note_all()

    def follow(self, key):
        while key in self.mim:
            key = self.mim[key]
        return key

    def value(self, key):
        key = self.follow(key)
        if key[1] in ("loc", "ploc"):
            x, y, t, moving = self.pos[key]
            return (x + (SPEED * (self.env.now - t) if moving else 0.0), y)
        return self.lines[key].now(self.env.now)

    def note_all(self):
        t = self.env.now
        for key in self.lines:
            self.seen.setdefault(key, {}).setdefault(t, []).append(self.value(key))

    def same(self, key, got, want):
        if key[1] in ("loc", "ploc"):
            return close(got.x, want[0], 1e-9) and close(got.y, want[1], 1e-9)
        return got == want

    def look(self, key, how):
        got = getattr(self.actors[key[0]], key[1])
        want = self.value(key)
        self.ctx.check(self.same(key, got, want), "wrong-value",
                       f"t={self.env.now}: {how} m{key[0]}.{key[1]} = {got}, should be {want} (mimics {self.mim.get(key)})")

    def look_all(self, how="end"):
        for key in list(self.lines) + list(self.pos):
            self.look(key, how)

    def start(self, key, of, k):
        i, s = key
        a = self.actors[i]
        task = self.tasks[i][k]
        try:
            a.activate_mimic_state(self_state=s, mimic_state=of[1], mimic_actor=self.actors[of[0]], task=task)
        except UP.UpstageError:
            self.ctx.check(key in self.mim, "refused-free-mimic", f"{key} -> {of}")
            self.ctx.cover("refused-second-mimic")
            return
        self.ctx.check(key not in self.mim, "second-mimic-accepted", f"{key} -> {of}")
        self.mim[key] = of
        self.task_of[key] = k
        if of in self.mim:
            self.ctx.cover("chain")

    def stop_model(self, key):
        v = self.value(key)
        del self.mim[key]
        del self.task_of[key]
        if key[1] in ("loc", "ploc"):
            self.pos[key] = [v[0], v[1], self.env.now, False]
        else:
            self.lines[key].put(self.env.now, v)

    def do(self, o):
        t, i, s = self.env.now, o["i"], o["s"]
        key, of = (i, s), (o["j"], o["s2"])
        a = self.actors[i]
        task = self.tasks[i][o["k"]]
        self.note_all()
        if o["op"] == "set":
            if key in self.mim:
                return
            setattr(a, s, o["v"])
            ln = self.lines[key]
            ln.put(t, o["v"])
            for m, of2 in self.mim.items():  # direct mimics that record must show it
                if of2 == key:
                    self.ctx.nontrivial = True
                    self.ctx.cover("changed-while-mimicked")
                    if m[1] in ("v", "w", "rlin"):
                        self.must.append((m, t, o["v"]))
        elif o["op"] in ("on", "off"):
            s = "lin" if o["s"] in PLAIN else o["s"]
            key = (i, s)
            if key in self.mim:
                return
            ln = self.lines[key]
            if o["op"] == "on" and ln.owner is None:
                a.activate_linear_state(state=s, rate=o["v"], task=task)
                ln.put(t, ln.now(t))
                ln.owner, ln.rate = o["k"], o["v"]
            elif o["op"] == "off" and ln.owner is not None:
                a.deactivate_state(state=s, task=self.tasks[i][ln.owner])
                ln.put(t, ln.now(t))
                ln.owner, ln.rate = None, 0.0
        elif o["op"] == "mimic":
            if self.follow(of) == key or self.lines[key].owner is not None:
                return
            self.start(key, of, o["k"])
        elif o["op"] == "locmimic":
            key, of = (i, "ploc"), (o["j"], "loc")
            self.start(key, of, o["k"])
        elif o["op"] == "move":
            p = self.pos[(i, "loc")]
            if not p[3]:
                a.activate_location_state(state="loc", speed=SPEED, task=task,
                                          waypoints=[UP.CartesianLocation(p[0] + 1000.0, p[1])])
                self.pos[(i, "loc")] = [p[0], p[1], t, True]
            else:
                x, y = self.value((i, "loc"))
                for tk in self.tasks[i]:
                    if "loc" in getattr(a, "_states_by_task", {tk: ["loc"]}).get(tk, ()):
                        a.deactivate_state(state="loc", task=tk)
                self.pos[(i, "loc")] = [x, y, t, False]
        elif o["op"] == "unmimic":
            for key in ((i, s), (i, "ploc")):
                if key in self.mim:
                    if o["k"] != self.task_of[key] and o["j"] % 2:
                        # not the task that activated it: refused, and it goes on
                        try:
                            a.deactivate_mimic_state(self_state=key[1], task=task)
                            self.ctx.violate("wrong-task", f"t={t}: a{i}.{key[1]}: stopped by another task than the one that activated it")
                        except UP.UpstageError:
                            self.ctx.fault("wrong-task")
                        break
                    a.deactivate_mimic_state(self_state=key[1], task=self.tasks[i][self.task_of[key]])
                    self.stop_model(key)
                    break
        elif o["op"] == "endtask":
            mine = [x for x, kk in self.task_of.items() if x[0] == i and kk == o["k"]]
            vals = {x: self.value(x) for x in mine}
            a.deactivate_all_mimic_states(task=task)
            for x in mine:
                self.stop_model(x)
                if x[1] in self.lines:
                    self.lines[x].put(t, vals[x])
        self.note_all()

    def histories(self):
        ctx = self.ctx
        for i, a in enumerate(self.actors):
            for s in ("v", "w", "rlin"):
                for t, v in a._state_histories[s]:
                    if isinstance(v, ActiveStatus):
                        continue
                    have = self.seen[(i, s)]
                    if t in have:
                        ctx.check(v in have[t], "history-not-of-this-state",
                                  f"m{i}.{s} history has ({t}, {v}); it was {have[t]}")
        for (i, s), t, v in self.must:
            ctx.check((t, v) in self.actors[i]._state_histories[s], "change-not-recorded",
                      f"m{i}.{s} mimicked a state set to {v} at {t}; history {self.actors[i]._state_histories[s][-6:]}")


def simulate(plan, ctx, ops, main):
    with ctx.context() as env:
        w = World(plan, ctx, env, main)
        for o in ops:
            at(env, o["t"], lambda o=o: w.do(o))

        def read(r):
            w.note_all()
            w.look((r["i"], r["s"]), "read")

        for r in plan["reads"] if main else ():
            ctx.fault("observation")
            at(env, r["t"], lambda r=r: read(r), r["depth"])

        def instant():
            if main and plan["look"] and int(env.now * 4) % plan["look"] == 0:
                w.note_all()
                w.look_all()

        env._hooks.append(instant)
        ctx.drive(env)
        env.run(until=env.now + 1.25)
        if main:
            w.note_all()
            w.look_all("final")
            w.histories()
            for i, a in enumerate(w.actors):
                ctx.log(i, a._state_histories)
        return w


def fixed(a):
    def flat(x):
        return (x.x, x.y, x.z) if isinstance(x, UP.CartesianLocation) else x
    return ([(k, [(t, flat(v)) for t, v in h]) for k, h in a._state_histories.items()],
            [(k, flat(v)) for k, v in a.__dict__.items() if k in ALL + ["loc", "ploc"]])


def run(plan, ctx):
    old = None
    if plan["ghost"]:
        ctx.fault("earlier-environment")
        old = simulate(plan, ctx, plan["ghost"], False)
        before = [fixed(a) for a in old.actors]
    simulate(plan, ctx, plan["ops"], True)
    if old is not None:
        after = [fixed(a) for a in old.actors]
        ctx.check(before == after, "earlier-environment-changed", "actors of a finished environment changed")
