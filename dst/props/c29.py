"""C29: logs hold what was logged, once, in order, and times are written as the clock's."""
import math

import upstage_des.api as UP
from upstage_des.base import UpstageBase

from dst.core import at

ID = "C29"
RUNS = {"quick": 36000, "thorough": 300000}
SHRINK = ["tasks", "marks", "faults", "slices"]
RULE = ("Stages of every time unit, spelling and length of day, clocks up to months; 1-3 actors with and without logs and "
        "written times, running networks of logging tasks on one-second grids expressed in the stage's unit; messages of "
        "any kind from tasks, interrupt handlers, decisions and outside, by up to 8 interrupts, rehearsals in between "
        "(also failing ones) and another stage of another unit running in turns. Every log is compared with what was "
        "logged, every written time with the clock. Non-trivial: an interrupt or a rehearsal happened and something was logged.")
REAL = ["upstage_des base (pretty_now, stage), actor log, tasks, networks, rehearsal"]
STUB = []
ASSUME = ["texts of the framework's own messages are only searched for the task or cause they are about"]

UNITS = {"s": 1, "second": 1, "Seconds": 1, "min": 60, "minutes": 60, "Min": 60, "hr": 3600, "hours": 3600, "HOUR": 3600,
         None: 3600, "": 3600, "ticks": None, "day": None, "Clock Ticks": None}


class Boom(Exception):
    pass


def gen(rng, tier):
    def stage():
        return dict(unit=rng.choice(list(UNITS)), day=rng.choice([None, None, 100, 125.5, 1]), late=rng.random() < 0.2,
                    stamp=rng.choice([None, None, True, False]), t0=rng.choice([0, 0, 1, 3599, 86399, 86400 * rng.randint(1, 400) + rng.randint(0, 86400)]),
                    part=rng.choice([1, 1, 1, 2, 4]))
    step = rng.choice([1, 1, 7, 60, 3600, 86400])
    actors = [dict(log=rng.random() < 0.75, stamp=rng.choice([None, None, True, False])) for _ in range(rng.randint(1, 3))]
    tasks = [dict(a=rng.randrange(len(actors)), t=step * rng.randint(0, 4),
                  steps=[dict(d=step * rng.randint(0, 3), what=rng.randrange(9)) for _ in range(rng.randint(1, 4))],
                  kind=rng.choice(["net", "net", "alone", "decide"])) for _ in range(rng.randint(0, 4))]
    marks = [dict(t=step * rng.randint(0, 14), a=rng.randrange(len(actors)), what=rng.randrange(9), how=rng.choice(["log", "log", "now", "rehearse", "fail"]),
                  depth=rng.randint(0, 2)) for _ in range(rng.randint(0, 12))]
    faults = [dict(t=step * rng.randint(0, 12), k=rng.randrange(4), ans=rng.choice("EIR"), depth=rng.randint(0, 2), prio=rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 8))]
    return dict(stages=[stage() for _ in range(rng.choice([1, 1, 2]))], actors=actors, tasks=tasks, marks=marks, faults=faults, step=step,
                slices=sorted(step * rng.randint(1, 14) for _ in range(rng.randint(0, 3))))


class Talker(UP.Actor):
    n = UP.State(default=0, recording=True)


class Falsy(dict):
    """A cause that is false, as 0, None and "" are."""

    def __bool__(self):
        return False


class World:
    def __init__(self, plan, ctx, env, stage, k):
        self.plan, self.ctx, self.env, self.s, self.k = plan, ctx, env, stage, k
        self.per = UNITS[stage["unit"]]
        self.day = None if stage["late"] else stage["day"]
        self.base = UpstageBase()
        self.said = []      # per actor: (time, message or a function of a text)
        self.actors = []
        self.count = 0
        self.procs, self.begun = {}, []
        for i, a in enumerate(plan["actors"]):
            kw = {} if a["stamp"] is None else dict(debug_log_time=a["stamp"])
            self.actors.append(Talker(name=f"a{i}", debug_log=a["log"], **kw))
            self.said.append([])

    def units(self, sec):
        """Seconds in units of the stage."""
        p = self.per or 1
        return sec / self.s["part"] / p

    def pretty(self):
        now = self.env.now
        if self.per:
            sec = now * self.per
            sec = round(sec) if abs(sec - round(sec)) < 1e-4 else math.floor(sec)
            return "[Day %4d - %02d:%02d:%02d]" % (sec // 86400, sec // 3600 % 24, sec // 60 % 60, sec % 60)
        if self.day is None:
            return "[%.3f %s]" % (now, self.s["unit"])
        days = int(now // self.day)
        return "[Day %4d - %.3f %s]" % (days, now - days * self.day, self.s["unit"])

    def message(self, what):
        self.count += 1
        return [f"m{self.count}", f"m{self.count}", "", 0, ["list", self.count], {"m": self.count}, ("t", 1), False, "same"][what]

    def log(self, i, what, actor=None):
        a = self.actors[i] if actor is None else actor
        m = self.message(what)
        got = a.log(m)
        self.ctx.check(got is None, "log-returned", repr(got))
        if a is not self.actors[i]:
            return          # an understudy's
        spec = self.plan["actors"][i]
        stamp = spec["stamp"] if spec["stamp"] is not None else self.s["stamp"] if self.s["stamp"] is not None else True
        if spec["log"]:
            self.said[i].append((self.env.now, f"{self.pretty()} {m}" if stamp else m))
            self.ctx.cover("logged")
        self.whole(i)

    def told(self, i, about):
        """The framework logged something about this, now."""
        if self.plan["actors"][i]["log"]:
            lines = [m for t, m in self.actors[i].get_log() if t == self.env.now and about in str(m)]
            self.ctx.check(lines, "not-logged", lambda: f"t={self.env.now}: nothing about {about} in {self.actors[i].get_log()[-5:]}")

    def whole(self, i):
        """All that was said is in the log once and in order, between the framework's own lines."""
        log, ctx = self.actors[i].get_log(), self.ctx
        ctx.check(self.actors[i].log() == log, "logs-differ", "log() and get_log()")
        if not self.plan["actors"][i]["log"]:
            ctx.check(log == [], "log-not-empty", str(log))
            return
        times = [t for t, _ in log]
        ctx.check(times == sorted(times) and (not times or times[-1] <= self.env.now), "log-order", str(times))
        mine = [(t, m) for t, m in log if any(m is s or m == s and type(m) is type(s) for t2, s in self.said[i] if t2 == t)]
        ctx.check(mine == self.said[i], "log-wrong", lambda: f"t={self.env.now}: a{i} said {self.said[i][-4:]}, its log {log[-6:]}")

    def now(self):
        ctx, want = self.ctx, self.pretty()
        for x in [self.base] + self.actors:
            ctx.check(x.pretty_now == want, "wrong-time", lambda: f"clock {self.env.now!r} {self.s['unit']}: {x.pretty_now!r}, should be {want!r}")
        ctx.cover("unit-kind-%s" % ("standard" if self.per else "day" if self.day else "plain"))

    def make(self, k, spec):
        w = self

        class T(UP.Task):
            def task(self, *, actor):
                real = actor is w.actors[spec["a"]]
                if real and self._network_name and self not in w.begun:
                    w.begun.append(self)    # (a restart isn't another task)
                    w.told(spec["a"], type(self).__name__)
                for s in spec["steps"]:
                    w.log(spec["a"], s["what"], actor)
                    yield UP.Wait(w.units(s["d"]))
                    if real:
                        w.now()
                        w.ctx.check(self.pretty_now == w.pretty(), "wrong-time", "of a task")
                if self.rehearsing_fails:
                    raise Boom

            rehearsing_fails = False

            def on_interrupt(self, *, actor, cause):
                w.log(spec["a"], cause["what"], actor)
                w.ctx.nontrivial = True
                return {"E": self.INTERRUPT.END, "I": self.INTERRUPT.IGNORE, "R": self.INTERRUPT.RESTART}[cause["ans"]]

        class D(UP.DecisionTask):
            def make_decision(self, *, actor):
                w.log(spec["a"], spec["steps"][0]["what"], actor)

            def rehearse_decision(self, *, actor):
                w.log(spec["a"], spec["steps"][0]["what"], actor)

        c = D if spec["kind"] == "decide" else T
        c.__name__ = c.__qualname__ = f"Do{k}"
        return c

    def start(self, k):
        spec = self.plan["tasks"][k]
        c, a = self.make(k, spec), self.actors[spec["a"]]
        if spec["kind"] == "alone":
            self.procs[k] = c().run(actor=a)
            return
        net = UP.TaskNetworkFactory.from_single_terminating(f"n{k}", c).make_network()
        a.add_task_network(net)
        a.start_network_loop(net.name, init_task_name=c.__name__)
        self.procs[k] = (a, net.name)

    def fault(self, f):
        p = self.procs.get(f["k"])
        if isinstance(p, tuple):
            task = p[0].get_running_task(p[1])
            p = task.process if task is not None and "FINAL" not in task.name else None
        if p is None or not p.is_alive or p.target is None:
            return
        spec = self.plan["tasks"][f["k"]]
        if spec["kind"] == "decide":
            return
        self.ctx.fault("interrupt-" + f["ans"])
        p.interrupt(cause=(Falsy if self.count % 2 else dict)(ans=f["ans"], what=0, id=f"cause{self.count}"))
        if f["ans"] != "I":
            at(self.env, self.env.now, lambda c=f"cause{self.count}": self.told(spec["a"], c), 3, 2)

    def mark(self, m):
        i = m["a"]
        if m["how"] == "log":
            self.log(i, m["what"])
        elif m["how"] == "now":
            self.now()
            if self.s["late"] and self.day is None and self.s["day"] is not None:
                UP.add_stage_variable("daily_time_count", self.s["day"])
                self.day = self.s["day"]
                self.now()
        else:
            before = [list(a.get_log()) for a in self.actors]
            spec = dict(a=i, steps=[dict(d=self.plan["step"], what=m["what"])], kind="alone")
            c = self.make(9, spec)
            c.rehearsing_fails = m["how"] == "fail"
            try:
                c().rehearse(actor=self.actors[i])
            except Boom:
                self.ctx.fault("failing-rehearsal")
            self.ctx.cover("rehearsed")
            self.ctx.nontrivial = True
            after = [list(a.get_log()) for a in self.actors]
            self.ctx.check(before == after, "rehearsal-logged", "an understudy's messages are in the actor's log")
        for j in range(len(self.actors)):
            self.whole(j)

    def plan_all(self):
        plan, t0 = self.plan, self.env.now
        for k, t in enumerate(plan["tasks"]):
            at(self.env, t0 + self.units(t["t"]), lambda k=k: self.start(k))
        for m in plan["marks"]:
            at(self.env, t0 + self.units(m["t"]), lambda m=m: self.mark(m), m["depth"])
        for f in plan["faults"]:
            at(self.env, t0 + self.units(f["t"]), lambda f=f: self.fault(f), f["depth"], f["prio"])


def run(plan, ctx):
    def build(k, stage):
        per = UNITS[stage["unit"]] or 1
        with ctx.context(initial_time=stage["t0"] / per) as env:
            if stage["unit"] != "":
                UP.add_stage_variable("time_unit", stage["unit"])
            if stage["stamp"] is not None:
                UP.add_stage_variable("debug_log_time", stage["stamp"])
            if stage["day"] is not None and not stage["late"]:
                UP.add_stage_variable("daily_time_count", stage["day"])
            w = World(plan, ctx, env, stage, k)
            w.now()
            w.plan_all()
            end = plan["step"] * 16
            for cut in plan["slices"] + [end]:
                until = stage["t0"] / per + w.units(cut)
                if until > env.now:
                    env.run(until=until)
                w.now()
                yield
            for i in range(len(w.actors)):
                w.whole(i)
                ctx.log(i, w.actors[i].get_log())

    if len(plan["stages"]) == 1:
        for _ in build(0, plan["stages"][0]):
            pass
        return
    # the other simulation is run inside, in between
    first, second = plan["stages"]
    for n, _ in enumerate(build(0, first)):
        if n == 0:
            for _ in build(1, second):
                pass
