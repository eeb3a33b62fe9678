"""C28: changing states of the user's own kinds follow their rule while active, and only then."""
import upstage_des.api as UP
from upstage_des.states import ActiveState, ActiveStatus

from dst.core import at, close

ID = "C28"
RUNS = {"quick": 28000, "thorough": 400000}
SHRINK = ["tasks", "ops", "reads", "faults"]
RULE = ("1-3 actors with four changing states of user-defined kinds (power law as documented, half-life, a cycle of words, "
        "one keeping its own data and overriding activation), activated with generated parameters by up to 4 tasks each "
        "and by no task, left on, switched off singly or together, tasks interrupted with every answer, values assigned "
        "while inactive, and reads of any kind (values, recordings, clones, mimicking states, rehearsals) at colliding "
        "times. Every read is compared with the rule's closed form, the histories with it and with the switches. "
        "Non-trivial: an interrupt stopped a state or a read fell strictly inside an activity.")
REAL = ["upstage_des actor, states (ActiveState and its contract), task, rehearsal"]
STUB = []
ASSUME = ["the rules use the activity data as documented; states are assigned while inactive only",
          "a task that ends by itself leaves on what it didn't switch off, as documented"]

NAMES = ["p", "d", "c", "o"]
WORDS = ["low", "mid", "high", "off"]


class Power(ActiveState):
    """x_t = x_0 + a t^b, as in the documentation."""

    def _active(self, instance):
        data = self.get_activity_data(instance)
        now, current, started = data["now"], data["value"], data.get("started_at")
        if started is None:
            return None
        first = data.get("starting_value", current)
        a, b = data["a"], data["b"]
        value = first + a * (now - started) ** b
        self.__set__(instance, value)
        instance._set_active_state_data(state_name=self.name, started_at=started, starting_value=first, a=a, b=b)
        return value


class Half(ActiveState):
    def _active(self, instance):
        data = self.get_activity_data(instance)
        if data.get("started_at") is None:
            return None
        gone = data["now"] - data["started_at"]
        value = data["value"] * 0.5 ** (gone / data["a"])
        self.__set__(instance, value)
        instance._set_active_state_data(self.name, started_at=data["now"], a=data["a"], b=data["b"])
        return value


class Cycle(ActiveState):
    def _active(self, instance):
        data = self.get_activity_data(instance)
        if data.get("started_at") is None:
            return None
        first = data.get("first", data["value"])
        value = WORDS[(WORDS.index(first) + int((data["now"] - data["started_at"]) / data["a"])) % 4]
        self.__set__(instance, value)
        instance._set_active_state_data(self.name, started_at=data["started_at"], first=first, a=data["a"])
        return value


class Own(ActiveState):
    """Keeps its own data between evaluations, and wants to know when it is switched."""

    def _active(self, instance):
        data = self.get_activity_data(instance)
        if data.get("started_at") is None:
            return None
        first, known = data.get("_first", data["value"]), data["known"]
        last, when = data.get("_last", 0.0), data.get("_when", data["started_at"])
        last += data["a"] * (data["now"] - when)
        value = first + last
        self.__set__(instance, value)
        mine = {} if "_first" in data else {"_first": first}
        instance._set_active_state_data(self.name, started_at=data["started_at"], a=data["a"], known=known, _last=last, _when=data["now"], **mine)
        return value

    def activate(self, instance, task=None):
        instance.switches.append(("on", instance.env.now, task))
        super().activate(instance, task)

    def deactivate(self, instance, task=None):
        instance.switches.append(("off", instance.env.now, task))
        return super().deactivate(instance, task)


class Thing(UP.Actor):
    p = Power(default=1.0)
    d = Half(default=8.0, valid_types=float, recording=True)
    c = Cycle(default="low", valid_types=str, recording=True)
    o = Own(default=0.0, recording=True, record_duplicates=True)
    m = UP.State(default=0, recording=True)
    switches = UP.State(default_factory=list)


class Model:
    def __init__(self, s, v, t):
        self.s, self.v, self.t, self.owner, self.par = s, v, t, None, None
        self.segments = [(t, v, None)]      # from when, value then, parameters
        self.switches = []

    def rule(self, v, t, par):
        if par is None:
            return v
        a, b = par
        if self.s == "p":
            return v + a * t ** b
        if self.s == "d":
            return v * 0.5 ** (t / a)
        if self.s == "c":
            return WORDS[(WORDS.index(v) + int(t / a)) % 4]
        return v + a * t

    def now(self, t):
        return self.rule(self.v, t - self.t, self.par)

    def past(self, t):
        """All values it had at t."""
        out = []
        for k, (start, v, par) in enumerate(self.segments):
            end = self.segments[k + 1][0] if k + 1 < len(self.segments) else float("inf")
            if start <= t <= end:
                out.append(self.rule(v, t - start, par))
        return out

    def to(self, t, v, par, owner):
        self.v, self.t, self.par, self.owner = v, t, par, owner
        self.segments.append((t, v, par))


def gen(rng, tier):
    grid = rng.choice([0.25, 0.5, 1.0])
    na = rng.randint(1, 3)

    def act():
        return dict(s=rng.choice(NAMES), a=rng.choice([0.25, 0.5, 1.0, 2.0]), b=rng.choice([1.0, 2.0, 0.5, 3.0]))
    tasks = []
    for _ in range(rng.randint(1, 6)):
        steps = []
        for _ in range(rng.randint(1, 7)):
            op = rng.choice(["on", "on", "on", "wait", "wait", "off", "all", "read"])
            steps.append(dict(act(), op=op, d=grid * rng.randint(0, 4)))
        tasks.append(dict(i=rng.randrange(na), t=grid * rng.randint(0, 8), steps=steps))
    ops = [dict(act(), i=rng.randrange(na), t=grid * rng.randint(0, 20), op=rng.choice(["on", "on", "off", "off", "all", "assign", "assign", "mimic", "unmimic"]),
                v=rng.randint(-3, 6), j=rng.randrange(na), depth=rng.randint(0, 2)) for _ in range(rng.randint(0, 14))]
    reads = [dict(act(), i=rng.randrange(na), t=grid * rng.randint(0, 24) + rng.choice([0, 0, 0.125]), how=rng.choice(["get", "get", "get", "all", "record", "clone", "mimic", "rehearse", "data"]),
                  d=grid * rng.randint(1, 6), depth=rng.randint(0, 3), prio=rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 16))]
    faults = [dict(k=rng.randrange(max(1, len(tasks))), t=grid * rng.randint(0, 16), ans=rng.choice("EERI"), depth=rng.randint(0, 3), prio=rng.choice([0, 1])) for _ in range(rng.randint(0, 6))]
    return dict(na=na, tasks=tasks, ops=ops, reads=reads, faults=faults, t0=rng.choice([0.0, 0.0, 64.0]), end=grid * 26)


def params(s, o):
    return dict(a=o["a"]) if s == "c" else dict(a=o["a"], known=None) if s == "o" else dict(a=o["a"], b=o["b"])


def same(x, y):
    return x == y if isinstance(x, str) or isinstance(y, str) else isinstance(x, float) and close(x, y, 1e-9)


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.actors = [Thing(name=f"a{i}") for i in range(plan["na"])]
        self.models = {(i, s): Model(s, dict(p=1.0, d=8.0, c="low", o=0.0)[s], env.now) for i in range(plan["na"]) for s in NAMES}
        self.mimics = {}        # actor -> (actor mimicked, state)
        self.kept = {}          # actor -> value kept since
        self.procs = {}

    def on(self, i, o, task, owner):
        m, env = self.models[(i, o["s"])], self.env
        kw = params(o["s"], o)
        try:
            self.actors[i].activate_state(state=o["s"], task=task, **kw)
        except UP.SimulationError:
            self.ctx.check(m.owner is not None, "activation-refused", f"t={env.now}: a{i}.{o['s']} isn't active")
            self.ctx.cover("refused-on")
            return
        self.ctx.check(m.owner is None, "activated-twice", f"t={env.now}: a{i}.{o['s']} is active for {m.owner}")
        m.to(env.now, m.now(env.now), (o["a"], o["b"]), owner)
        m.switches.append(("activating", env.now))

    def off(self, i, o, task, owner):
        m, env = self.models[(i, o["s"])], self.env
        try:
            self.actors[i].deactivate_state(state=o["s"], task=task)
        except UP.SimulationError:
            self.ctx.check(m.owner != owner, "deactivation-refused", f"t={env.now}: a{i}.{o['s']} is active for {m.owner}")
            self.ctx.cover("refused-off")
            return
        self.ctx.check(m.owner == owner, "deactivated-for-another", f"t={env.now}: a{i}.{o['s']} is active for {m.owner}, not {owner}")
        self.stopped(m)

    def stopped(self, m):
        m.to(self.env.now, m.now(self.env.now), None, None)
        m.switches.append(("deactivating", self.env.now))

    def release(self, i, owner):
        n = 0
        for s in NAMES:
            m = self.models[(i, s)]
            if m.owner == owner:
                self.stopped(m)
                n += 1
        return n

    # ---- tasks
    def start(self, k):
        w, spec = self, self.plan["tasks"][k]
        i = spec["i"]

        class T(UP.Task):
            def task(self, *, actor):
                for o in spec["steps"]:
                    if o["op"] == "on":
                        w.on(i, o, self, k)
                    elif o["op"] == "off":
                        w.off(i, o, self, k)
                    elif o["op"] == "all":
                        actor.deactivate_all_states(task=self)
                        w.release(i, k)
                    elif o["op"] == "read":
                        w.look(i, o["s"])
                    else:
                        yield UP.Wait(o["d"])
                yield UP.Wait(0.25)

            def on_interrupt(self, *, actor, cause):
                if cause != "I" and w.release(i, k):
                    w.ctx.nontrivial = True
                    w.ctx.cover("released")
                return {"E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART, "I": self.INTERRUPT.IGNORE}[cause]

        self.procs[k] = T().run(actor=self.actors[i])

    def interrupt(self, f):
        proc = self.procs.get(f["k"])
        if proc is not None and proc.is_alive:
            self.ctx.fault("interrupt-" + f["ans"])
            proc.interrupt(cause=f["ans"])

    # ---- from outside
    def do(self, o):
        i, a, m = o["i"], self.actors[o["i"]], self.models[(o["i"], o["s"])]
        op = o["op"]
        if op == "on":
            self.on(i, o, None, "none")
        elif op == "off":
            self.off(i, o, None, "none")
        elif op == "all":
            a.deactivate_all_states(task=None)
            self.release(i, "none")
        elif op == "assign":
            if m.owner is None:
                v = WORDS[o["v"] % 4] if o["s"] == "c" else float(o["v"])
                setattr(a, o["s"], v)
                m.to(self.env.now, v, None, None)
        elif op == "mimic":
            if i not in self.mimics:
                a.activate_mimic_state(self_state="m", mimic_state=o["s"], mimic_actor=self.actors[o["j"]], task=None)
                self.mimics[i] = (o["j"], o["s"])
        elif i in self.mimics:
            a.deactivate_mimic_state(self_state="m", task=None)
            self.kept[i] = self.models[self.mimics.pop(i)].now(self.env.now)

    def look(self, i, s, how="read", got=None):
        m = self.models[(i, s)]
        got = getattr(self.actors[i], s) if got is None else got
        want = m.now(self.env.now)
        self.ctx.log(how, self.env.now, i, s, got)
        self.ctx.check(same(got, want), "wrong-value", lambda: f"t={self.env.now}: {how} of a{i}.{s} gave {got!r}, its rule {want!r} (active for {m.owner} since {m.t} with {m.par} from {m.v!r})")
        if m.owner is not None and self.env.now > m.t:
            self.ctx.nontrivial = True
            self.ctx.cover("inside-" + s)

    def read(self, r):
        i, s, a, how = r["i"], r["s"], self.actors[r["i"]], r["how"]
        if how == "get":
            self.look(i, s)
        elif how == "all":
            for s2, v in a.state_values.items():
                if s2 in NAMES:
                    self.look(i, s2, "whole", v)
        elif how == "record":
            if s != "p":
                a.record_state(s)
            self.look(i, s)
        elif how == "data":
            data = a.get_active_state_data(s)
            m = self.models[(i, s)]
            self.ctx.check(bool(data) == (m.owner is not None), "activity-data", f"{data} while active for {m.owner}")
            self.ctx.check(not data or data["a"] == m.par[0], "activity-data", f"{data}, parameters {m.par}")
            self.look(i, s)
        elif how == "clone":
            c = a.clone()
            for s2 in NAMES:
                self.look(i, s2, "clone", c.__dict__[s2])
                self.look(i, s2)
        elif how == "mimic":
            if i in self.mimics:
                self.look(*self.mimics[i], "mimic", a.m)
            elif i in self.kept:
                self.ctx.check(same(a.m, self.kept[i]), "mimic-kept", f"{a.m!r}, {self.kept[i]!r} when it was stopped")
        elif how == "rehearse":
            m = self.models[(i, s)]
            if m.owner is not None:
                return
            kw = params(s, r)

            class T(UP.Task):
                def task(self, *, actor):
                    actor.activate_state(state=s, task=self, **kw)
                    yield UP.Wait(r["d"] / 2)
                    getattr(actor, s)
                    yield UP.Wait(r["d"] / 2)
                    actor.deactivate_state(state=s, task=self)
                    yield UP.Wait(1.0)

            n = len(a.switches)
            out = T().rehearse(actor=a)
            want = m.rule(m.v, r["d"], (r["a"], r["b"]))
            self.ctx.cover("rehearsed")
            self.ctx.check(same(getattr(out, s), want), "rehearsed-value", lambda: f"t={self.env.now}: {getattr(out, s)!r} after {r['d']} of {s} with {kw} from {m.v!r}, rule {want!r}")
            del a.switches[n:]      # a list of the user's is shared by clones, as documented
            self.look(i, s)

    def final(self):
        ctx = self.ctx
        for (i, s), m in self.models.items():
            self.look(i, s, "last")
            if s == "p":
                continue
            hist = self.actors[i]._state_histories.get(s, [])
            got = [(v.name, t) for t, v in hist if isinstance(v, ActiveStatus)]
            ctx.check(got == m.switches, "switches", lambda: f"a{i}.{s}: recorded {got}, happened {m.switches}")
            times = [t for t, _ in hist]
            ctx.check(times == sorted(times), "history-order", str(times))
            for t, v in hist:
                if not isinstance(v, ActiveStatus):
                    ctx.check(any(same(v, x) for x in m.past(t)), "history", lambda: f"a{i}.{s} recorded as {v!r} at {t}, was {m.past(t)}")
            if s == "o":
                got = [({"on": "activating", "off": "deactivating"}[w], t) for w, t, _ in self.actors[i].switches]
                ctx.check(got == m.switches, "own-switches", lambda: f"a{i}.o was told {got}, happened {m.switches}")


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"]) as env:
        w, t0 = World(plan, ctx, env), plan["t0"]
        for k, t in enumerate(plan["tasks"]):
            at(env, t0 + t["t"], lambda k=k: w.start(k))
        for o in plan["ops"]:
            at(env, t0 + o["t"], lambda o=o: w.do(o), o["depth"])
        for r in plan["reads"]:
            at(env, t0 + r["t"], lambda r=r: w.read(r), r["depth"], r["prio"])
        for f in plan["faults"]:
            at(env, t0 + f["t"], lambda f=f: w.interrupt(f), f["depth"], f["prio"])
        env.run(until=t0 + plan["end"])
        w.final()
