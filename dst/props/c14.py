"""C14: a continuous container's level is the exact integral of its flows."""
from fractions import Fraction as F

import upstage_des.api as UP
from upstage_des.resources.container import (ContainerEmptyError, ContainerError, ContainerFullError,
                                             ContinuousContainer)
from upstage_des.resources.monitoring import SelfMonitoringContinuousContainer

from dst.core import INF, at

ID = "C14"
RUNS = {"quick": 46000, "thorough": 1200000}
SHRINK = ["ops", "faults"]
RULE = ("1-14 gets and puts with generated rates (round, decimal fractions that do not sum exactly, arbitrary) and "
        "times (round, arbitrary, unlimited, exactly what empties or fills the container) on a container with generated "
        "capacity, level and error settings at clocks up to 1e5, some started from limit callbacks; cancelled at "
        "generated instants and depths within the instant. Level, rate and predictions are read at generated times and "
        "compared with an exact rational integral of the flows. Non-trivial: two flows overlapped or a limit was hit.")
REAL = ["upstage_des continuous containers, plain and self-monitoring; simpy"]
STUB = ["none"]
ASSUME = ["a flow ending or starting in the very instant a limit is touched may be counted to either side of it"]


def gen(rng, tier):
    style = rng.choice(["round", "decimal", "free", "free"])
    cap = rng.choice([1, 3, 10, 10, 100, 1000, 0.7, 2.1])
    if style == "free":
        cap = round(cap * (1 + rng.random()), 4)
    init = rng.choice([0, cap, cap / 2, cap / 3, cap * rng.random()])
    if style == "round":
        init = round(init)
        cap = max(round(cap), init)
    ops, t = [], 0.0
    for i in range(rng.randint(1, 14)):
        t += rng.choice([0, 0, 1, 2, 0.5]) if style == "round" else rng.choice([0, 0.1, 0.3, 0.7]) if style == "decimal" else rng.random() * 2
        rate = {"round": rng.choice([1, 1, 2, 3, 4]), "decimal": rng.choice([0.1, 0.2, 0.3, 0.6, 0.7, 1.1]), "free": rng.random() * cap / 2 + 0.01}[style]
        dur = {"round": rng.choice([1, 2, 3, 5, 8]), "decimal": rng.choice([0.1, 0.3, 1.1, 2.3, 7.7]), "free": rng.random() * 6 + 0.01}[style]
        x = rng.random()
        if x < 0.08:
            dur = None
        elif x < 0.11:
            dur = 0.0
        elif x < 0.2:
            dur = cap / rate if rng.random() < 0.5 else max(init / rate, 0.01)
        ops.append(dict(op=rng.choice(["get", "put"]), t=round(t, 6), rate=rate, time=dur, cb=rng.choice([0, 1, 1, 1, 2, 3]),
                        says=rng.choice([None, None, False, True, 0]), then=rng.choice([None, None, None, "put", "get", "cancel"]), arg=rng.randint(0, 9), depth=rng.choice([0, 0, 0, 1, 2])))
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        faults.append(dict(op="cancel", k=rng.randint(0, 13), t=rng.choice([o["t"] for o in ops]) if rng.random() < 0.3 else round(rng.random() * (t + 6), rng.choice([0, 1, 4])),
                           rel=rng.random() < 0.2, depth=rng.choice([0, 0, 1, 2]), prio=rng.choice([0, 1, 2]), how=rng.choice(["cancel", "stop"])))
    for _ in range(rng.choice([0, 1, 3, 12])):
        faults.append(dict(op="read", t=round(rng.random() * (t + 12), rng.choice([0, 1, 4])), depth=rng.choice([0, 2]), prio=1,
                           target=rng.choice([0.0, cap, rng.random() * cap, rng.random() * cap]), extra=rng.choice([0, 0, 1.0, -0.3])))
    scale = rng.choice([1.0] * 5 + [1e-8, 1e6])
    cap, init = cap * scale, init * scale
    for o in ops:
        o["rate"] *= scale
    for f in faults:
        if f["op"] == "read":
            f["target"] *= scale
            f["extra"] *= scale
    return dict(scale=scale, cap=cap, init=min(init, cap), empty=rng.random() < 0.3, full=rng.random() < 0.3, mon=rng.random() < 0.4,
                t0=rng.choice([0.0, 0.0, 3.7, 1e5 / 3]), ops=ops, faults=faults, until=round(t + 15, 3))


class Flow:
    def __init__(self, ev, rate, start, time, cb):
        self.ev, self.rate, self.start, self.cb = ev, F(rate), start, cb
        self.end = INF if time is None else start + time
        self.called = 0
        self.cancelled = None
        self.on = True


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        kind = SelfMonitoringContinuousContainer if plan["mon"] else ContinuousContainer
        self.cap, self.t0 = plan["cap"], plan["t0"]
        self.box = kind(env, capacity=plan["cap"], init=plan["init"], error_empty=plan["empty"], error_full=plan["full"])
        self.level, self.last = F(plan["init"]), F(env.now)
        self.flows, self.started, self.errors = [], [], []
        self.touched = False    # a flow began or was cancelled in this instant
        most = max([o["rate"] for o in plan["ops"]], default=1)
        self.tol = 1e-8 * max(plan["scale"], self.cap) + 1e-8 * most * (1 + 1e-3 * self.t0)
        for o in plan["ops"]:
            at(env, self.t0 + o["t"], lambda o=o: self.begin(o), o["depth"])
        for f in plan["faults"]:
            if f["op"] == "cancel":
                t = f["t"]
                if f["rel"] and plan["ops"]:
                    o = plan["ops"][f["k"] % len(plan["ops"])]
                    t = o["t"] + (o["time"] or 1.0)
                at(env, self.t0 + t, lambda f=f: self.cancel(f["k"], f["how"]), f["depth"], f["prio"])
            else:
                at(env, self.t0 + f["t"], lambda f=f: self.read(f), f["depth"], f["prio"])

    def begin(self, o, nested=False):
        if len(self.flows) > 40:
            return
        now = self.env.now
        flow = Flow(None, o["rate"] if o["op"] == "put" else -o["rate"], now, o["time"], o["cb"])

        def called():
            flow.called += 1
            self.ctx.cover("limit-callback")
            if flow.called > 1 or nested or not o["then"]:
                return o.get("says")
            if o["then"] == "cancel":
                self.cancel(o["arg"], "cancel")
            else:
                self.begin(dict(op=o["then"], rate=o["rate"] * 2 if o["arg"] % 2 else o["rate"], time=1.0 + o["arg"], cb=1), True)
                self.ctx.cover("flow-from-callback")
            return o.get("says")

        fn = self.box.put if o["op"] == "put" else self.box.get
        flow.ev = fn(rate=o["rate"], time=o["time"], custom_callbacks=[called] * o["cb"] if o["cb"] else None)
        self.flows.append(flow)
        self.touched = True
        self.ctx.log(o["op"], now, o["rate"], o["time"])

    def cancel(self, k, how):
        if not self.flows:
            return
        flow = self.flows[k % len(self.flows)]
        self.ctx.log("cancel", self.env.now, k % len(self.flows))
        if flow.on and self.env.active_process is not flow.ev.process:
            self.ctx.fault("cancel-at-start" if flow.start == self.env.now else "cancel")
            self.touched = True
            if flow.cancelled is None:
                flow.cancelled = self.env.now
        if self.env.active_process is flow.ev.process:
            return
        if how == "cancel":
            flow.ev.cancel()
        elif flow.ev.process.is_alive:
            flow.ev.process.interrupt("stop")

    def now_level(self, flows=None):
        return self.level + sum((f.rate for f in self.flows if f.on and f.start < self.env.now), F(0)) * (F(self.env.now) - self.last)

    def read(self, f):
        ctx, box = self.ctx, self.box
        ctx.fault("read")
        level, model = box.level, float(self.now_level())
        ctx.log("read", self.env.now, round(level, 6))
        ctx.check(0 <= level <= self.cap, "range", f"level {level!r} of a container of {self.cap} at {self.env.now}")
        ctx.check(abs(level - model) <= self.tol, "level", lambda: f"level {level} at {self.env.now}, integral of the flows {model}")
        ctx.check(box.level == level, "read-changes", "")
        if self.touched or any(x.on and (x.end <= self.env.now or not x.ev.process.is_alive) for x in self.flows):
            return
        net = float(sum((x.rate for x in self.flows if x.on), F(0)))
        ctx.check(abs(box.rate - net) <= 1e-9 * max(1, abs(net)), "rate", f"rate {box.rate}, flows sum to {net}")
        for extra in (0.0, f["extra"]):
            r = net + extra
            if abs(r) < 1e-6:
                continue
            room = (self.cap - model) if r > 0 else model
            got, want = box.time_until_done(rate=extra), room / abs(r)
            ctx.check(abs(got - want) <= (1e-9 * want + self.tol / abs(r)), "time-until-done", f"{got} instead of {want} at {self.env.now} (rate {r}, level {model})")
            d = (f["target"] - model) / r
            if abs(d * r) > self.tol:
                got, want = box.time_until_level(f["target"], rate=extra), d if d > 0 else INF
                ctx.check(got == want or abs(got - want) <= 1e-9 * abs(want) + self.tol / abs(r), "time-until-level",
                          f"{got} instead of {want} at {self.env.now} (rate {r}, level {model}, target {f['target']})")

    def instant(self):
        """What the end of each instant has to look like."""
        ctx, now, tol = self.ctx, self.env.now, self.tol
        on = [f for f in self.flows if f.on]
        before = [f for f in on if f.start < now]
        if len(on) > 1:
            ctx.nontrivial = True
        net = sum((f.rate for f in before), F(0))
        self.level += net * (F(now) - self.last)
        self.last = F(now)
        level = float(self.level)
        ctx.check(-tol <= level <= self.cap + tol, "beyond-limit", lambda: f"flows that should have been stopped took the level to {level} (capacity {self.cap}) at {now}")
        low, high = level <= tol, level >= self.cap - tol
        hit = {-1: False, 1: False}
        for f in on:
            side = 1 if f.rate > 0 else -1
            limit = high if side > 0 else low
            over = now >= f.end or f.cancelled is not None
            alive = f.ev.process.is_alive
            what = f"{'put' if side > 0 else 'get'} of rate {float(f.rate):g} from {f.start} planned to {f.end}"
            if over:
                self.touched = True
                ctx.check(not alive, "not-ended", f"{what} still in progress at {now}")
            if alive:
                ctx.check(f.called == 0, "callback", f"limit callback of the {what} called while it continues")
                continue
            f.on = False
            if not over:
                ctx.check(limit, "stopped-early", f"{what} was stopped at {now}, level {level} of {self.cap}")
            if f.called:
                ctx.check(limit and f.called == f.cb, "callback", f"{what}: {f.called} limit callbacks, level {level} of {self.cap}")
            if f.called or not over:
                hit[side] = True
                f.hit = True
            if f.cb and not over:
                ctx.check(f.called == f.cb, "callback", f"{what}: stopped at the limit, {f.called} limit callbacks")
        errs, self.errors = self.errors, []
        for side, flag, kind in ((-1, self.plan["empty"], ContainerEmptyError), (1, self.plan["full"], ContainerFullError)):
            mine = [e for e in errs if isinstance(e, kind)]
            limit = high if side > 0 else low
            if hit[side]:
                ctx.nontrivial = True
                ctx.cover("limit")
                ctx.check(self.touched or net * side > 0, "stopped-early", f"flows stopped at {now} although the net rate {float(net)} does not push against the limit")
                ctx.check(bool(mine) == flag, "limit-error", f"limit reached at {now}: errors {mine}, asked for: {flag}")
                for f in before:
                    ctx.check(not f.on or (f.rate > 0) != (side > 0), "not-stopped", f"flow of rate {float(f.rate):g} from {f.start} goes on at the limit, {now}")
                self.level = F(self.cap) if side > 0 else F(0)
            if mine:
                ctx.check(flag and limit, "limit-error", f"{mine} at {now}, level {level} of {self.cap}, asked for: {flag}")
                ctx.check(any(f.rate * side > 0 for f in on), "limit-error", f"{mine} at {now} without any flow pushing that way")
                ctx.cover("limit-error")
        if self.touched and (low or high):
            ctx.cover("tie-at-limit")
        other = [e for e in errs if not isinstance(e, (ContainerEmptyError, ContainerFullError))]
        ctx.check(not other, "limit-error", f"{other} at {now}")
        self.touched = False


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"]) as env:
        w = World(plan, ctx, env)
        stop = plan["t0"] + plan["until"]
        while env._queue and env._queue[0][0] <= stop:
            try:
                env.step()
            except ContainerError as e:
                w.errors.append(e)
            if not env._queue or env._queue[0][0] > env.now:
                w.instant()
        if env.now < stop:
            env.run(until=stop)
        w.instant()
        w.read(dict(target=plan["cap"] / 3, extra=0.0))
