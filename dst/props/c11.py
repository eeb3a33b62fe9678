"""C11: a rehearsal predicts the real run of a deterministic task."""
import dataclasses

import simpy
import upstage_des.api as UP
from upstage_des.base import SimulationError

from dst.core import Hang, Violation, at, close

ID = "C11"
RUNS = {"quick": 15000, "thorough": 400000}
SHRINK = ["phases", "steps", "body", "parts", "list", "queue", "noise"]
RULE = ("An actor with every kind of state goes through 1-4 phases: each rehearses a generated deterministic task or "
        "task network (waits with units, events/knowledge events/gets/resource holds succeeding exactly when planned by "
        "simulated partners, nested any/all, routines, rate/shared/location/mimic states, branches on state and time, "
        "decisions, queues, end tasks, infeasible lists), then performs it for real on the simulated clock among other "
        "activity, possibly after an earlier task was cut off by an interrupt. Clone and actor are compared at the end, "
        "and the tasks started. Non-trivial: a rehearsed phase took time and its real counterpart was compared.")
REAL = ["upstage_des task, task_network, events, routines, actor, states (rehearsal and real execution)"]
STUB = ["the partners that succeed the planned events"]
ASSUME = ["each wait or event is yielded once; planned and real outcomes of a composite do not tie",
          "knowledge events stay in a rehearsing actor's knowledge (documented in create_knowledge_event)",
          "WindowedGet and routine results are rehearsed as documented (first arrival; no value)"]


class Endless(Exception):
    pass


@dataclasses.dataclass
class Props:
    hp: float = 1.0
    tag: str = "a"


class Tag:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Tag{self.n}"


LEAVES = ["wait", "wait", "event", "kevent", "get", "fget", "sget", "cget"]


STOCKS = ["store", "fstore", "sstore", "given", "radio", "top", "low", "tank", "tank", "full", "stuck"]


def tree(rng, grid, depth, counter):
    parts = []
    for _ in range(rng.randint(1, 3)):
        if depth and rng.random() < 0.35:
            parts.append(tree(rng, grid, depth - 1, counter))
        else:
            counter[0] += 1
            parts.append(dict(op=rng.choice(LEAVES), d=grid * rng.randint(0, 4) + 0.013 * counter[0]))
    return dict(op=rng.choice(["any", "all"]), parts=parts)


OPS = ["wait"] * 4 + ["unit", "set", "append", "lin", "lin", "shared", "shared", "move", "move", "dict", "newkey", "dc", "seen", "mimic",
       "event", "kevent", "get", "fget", "sget", "cget", "put", "hold", "multi", "multi", "multi", "routine", "window", "know", "unknow", "pop",
       "branch", "branch", "loop", "fuel", "read", "hidden", "unset", "kind", "rand", "total", "ahead"]


def steps(rng, n, grid, deep):
    out = []
    for _ in range(n):
        op = rng.choice(OPS)
        s = dict(op=op, d=grid * rng.randint(0, 4), v=rng.randint(0, 5), k=rng.randint(0, 3))
        if op in ("lin", "shared", "move", "mimic", "branch", "loop", "routine"):
            s["body"] = steps(rng, rng.randint(1, 3), grid, deep - 1) if deep else [dict(op="wait", d=grid, v=0, k=0)]
        if op == "multi":
            s["tree"] = tree(rng, grid, 2, [0])
        if op == "move":
            s["way"] = [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.randint(1, 3))]
            s["frac"] = rng.choice([0, 0.37, 0.8, 1.0, 1.0])
        out.append(s)
    return out


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0])
    plan = dict(grid=grid, t0=rng.choice([0.0, 0.0, 7.25]), unit=rng.choice(["hr", "hr", "s", "min"]), geo=rng.random() < 0.25,
                debug=rng.random() < 0.3, monitored=rng.random() < 0.5, manager=rng.choice([None, None, None, "sensor", "stepped"]),
                programs=[dict(steps=steps(rng, rng.randint(1, 6), grid, 2)) for _ in range(4)],
                noise=[grid * rng.randint(0, 20) for _ in range(rng.randint(0, 4))])
    plan["links"] = {n: dict(default=rng.choice(["P0", "P1", "P2", "P3", "D"]), allowed=rng.sample(["P0", "P1", "P2", "P3", "D"], rng.choice([2, 4, 5, 5])))
                     for n in ["P0", "P1", "P2", "P3", "D"]}
    plan["phases"] = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["task", "task", "net", "net", "net", "decide", "cut"])
        p = dict(kind=kind, task=rng.randint(0, 3), gap=grid * rng.choice([0, 0, 1, 2.5]), reuse=rng.random() < 0.3, twice=rng.random() < 0.3,
                 know=rng.random() < 0.5, v=rng.randint(0, 5), cut=grid * rng.choice([0, 0.5, 1, 1, 2, 3]), active=rng.random() < 0.2,
                 stock=[rng.choice(STOCKS) for _ in range(rng.choice([0, 0, 1, 3]))])
        if kind == "net":
            p["list"] = [rng.choice(["P0", "P1", "P2", "P3", "D"]) for _ in range(rng.randint(1, 4))]
            p["queue"] = [rng.choice(["P0", "P1", "P2", "P3", "D"]) for _ in range(rng.choice([0, 0, 1, 2]))]
            p["end"] = rng.choice([None, "P0", "P1", "P2", "P3", "D"])
            p["decide"] = [rng.choice(["P0", "P1", "P2", "P3"]) for _ in range(rng.randint(0, 2))]
        plan["phases"].append(p)
    return plan


def make_classes(plan):
    store_cls = UP.SelfMonitoringStore if plan["monitored"] else simpy.Store
    tank_cls = UP.SelfMonitoringContainer if plan["monitored"] else simpy.Container
    Loc = UP.GeodeticLocationChangingState if plan["geo"] else UP.CartesianLocationChangingState

    class Rig(UP.Actor):
        note = UP.State(default=0, recording=True, valid_types=(int,))
        items = UP.State(default_factory=list, recording=True)
        fuel = UP.LinearChangingState(recording=True)
        load = UP.SharedLinearChangingState(default=10.0, recording=True)
        loc = Loc(recording=True)
        seen = UP.DetectabilityState(default=True, recording=True)
        echo = UP.State(default=0.0, recording=True)
        inv = UP.DictionaryState(valid_types=(int, float), recording=True)
        props = UP.DataclassState(valid_types=(Props,), recording=True)
        store = UP.ResourceState(default=store_cls)
        fstore = UP.ResourceState(default=simpy.FilterStore)
        sstore = UP.ResourceState(default=UP.SortedFilterStore)
        tank = UP.ResourceState(default=tank_cls, default_kwargs={"capacity": 50, "init": 0})
        given = UP.ResourceState(valid_types=(simpy.Store,))
        radio = UP.CommunicationStore(modes=None)
        shelf = UP.MultiStoreState(default=store_cls)
        fixed = UP.State(frozen=True)
        hidden = UP.State(default=3, no_init=True)
        unset = UP.State(allow_none_default=True)
        kind = "rig"

        @property
        def total(self):
            return self.note + len(self.items)

    return Rig


class Ahead(UP.Task):
    """A look ahead."""

    def __init__(self, d, v):
        super().__init__()
        self.d, self.v = d, v

    def task(self, *, actor):
        actor.set_knowledge("saw", [actor.note, self.env.now], overwrite=True)
        yield UP.Wait(self.d)
        actor.note = self.v + 10


class Trip(UP.Routine):
    """A user routine of waits."""

    def __init__(self, parts):
        super().__init__()
        self.parts = parts

    def run(self):
        for d in self.parts:
            yield UP.Any(UP.Wait(d), UP.Wait(d + 1.0))
            yield UP.Wait(0.25)

    def cancel(self):
        return iter(())


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.starts = []
        self.stop = None
        self.dead, self.epoch = set(), 0
        Rig = make_classes(plan)
        if plan["manager"] == "sensor":
            from upstage_des.motion.cartesian_model import cartesian_linear_intersection
            from upstage_des.motion.geodetic_model import subdivide_intersection
            UP.add_stage_variable("motion_manager", UP.SensorMotionManager(subdivide_intersection if plan["geo"] else cartesian_linear_intersection))
        elif plan["manager"] == "stepped":
            UP.add_stage_variable("motion_manager", UP.SteppedMotionManager(timestep=plan["grid"] / 2, max_empty_events=2))
        mk = lambda n: Rig(name=n, debug_log=plan["debug"], fuel=100.0, loc=self.place(0, 0), inv={"a": 1, "b": 2}, props=Props(),  # noqa: E731
                           given=simpy.Store(env, capacity=20), radio={"modes": ["uhf"]}, shelf={"left": {}, "top": {}, "low": {"capacity": 9}}, fixed=("x", n))
        self.actor, self.other = mk("r0"), mk("r1")
        self.other.fuel = 33.5
        self.bin = simpy.Store(env)
        self.tasks = [self.make_task(k) for k in range(4)]
        self.insts = {}
        self.D = self.make_decision()
        for t in plan["noise"]:
            at(env, plan["t0"] + t, lambda: env.timeout(0.1))

    def place(self, x, y):
        return UP.GeodeticLocation(10.0 + 0.1 * x, 20.0 + 0.1 * y, 0.0) if self.plan["geo"] else UP.CartesianLocation(x, y)

    def make_task(self, k):
        w = self
        prog = self.plan["programs"][k]["steps"] if k < len(self.plan["programs"]) else []

        class P(UP.Task):
            def task(self, *, actor):
                yield from w.enter(f"P{k}", self, actor)
                for s in prog:
                    yield from w.step(self, actor, s)
                actor.deactivate_all_states(task=self)
                actor.deactivate_all_mimic_states(task=self)
                yield from w.leave(self, actor)

            def on_interrupt(self, *, actor, cause):
                return self.INTERRUPT.END

        P.__name__ = f"P{k}"
        return P

    def make_decision(self):
        w = self

        class D(UP.DecisionTask):
            def decide(self, actor):
                w.begin("D", self, actor)
                # what a halted network does next is of no interest
                if w.is_parked(self):
                    w.park(self, actor)
                    return
                actor.set_knowledge("last", [actor.note, self.env.now, actor.env.now, self.stage.time_unit], overwrite=True)
                actor.note = actor.note + 1
                if self._network_name and w.past_list() and w.phase["decide"] and not self.get_actor_task_queue(actor):
                    self.set_actor_task_queue(actor, list(w.phase["decide"]))
                w.finish(self, actor)
                if w.is_parked(self):
                    w.park(self, actor)

            def make_decision(self, *, actor):
                self.decide(actor)

            def rehearse_decision(self, *, actor):
                self.decide(actor)

        return D

    # ---- following a network
    def is_parked(self, task):
        return not task._rehearsing and task._network_name in self.dead

    def past_list(self):
        return len(self.starts) >= len(self.phase["list"])

    def park(self, task, actor):
        task.clear_actor_task_queue(actor)
        task.set_actor_task_queue(actor, ["P0"])

    def begin(self, name, task, actor):
        if self.is_parked(task):
            return
        if not task._rehearsing and task._network_name and self.stop is not None and self.stop[0] == "at" and self.stop[1] == name:
            self.halt(actor, task)
        else:
            self.starts.append(name)
            if len(self.starts) > 25:
                raise Endless()

    def finish(self, task, actor):
        if self.is_parked(task):
            return
        if not task._rehearsing and task._network_name and self.stop is not None and self.stop[0] == "after" and len(self.starts) == self.stop[1]:
            self.halt(actor, task)

    def halt(self, actor, task):
        self.dead.add(task._network_name)
        self.seen = self.snapshot(actor)
        self.done.succeed()

    def enter(self, name, task, actor):
        self.begin(name, task, actor)
        if self.is_parked(task):
            yield UP.Event()

    def leave(self, task, actor):
        self.finish(task, actor)
        if self.is_parked(task):
            yield UP.Event()

    # ---- events that succeed as planned
    def leaf(self, task, actor, s, pending):
        op, d, real = s["op"], s["d"], not task._rehearsing
        live = [True]

        def partner(fn):
            if real:
                epoch = self.epoch
                at(self.env, self.env.now + d, lambda: fn() if live[0] and epoch == self.epoch else None)
                pending.append(live)

        if op == "wait":
            return UP.Wait(d)
        if op == "event":
            ev = UP.Event(rehearsal_time_to_complete=d)
            partner(lambda: ev.succeed(x=1))
            return ev
        if op == "kevent":
            self.serial = getattr(self, "serial", 0) + 1
            name = f"ev{self.serial}"
            ev = actor.create_knowledge_event(name=name, rehearsal_time_to_complete=d)
            partner(lambda: actor.succeed_knowledge_event(name=name, y=2))
            return ev
        if op == "get":
            st = simpy.Store(self.env)
            partner(lambda: st.put(Tag(1)))
            return UP.Get(st, rehearsal_time_to_complete=d)
        self.tag = getattr(self, "tag", 0) + 1
        n = self.tag
        if op == "fget":
            partner(lambda: actor.fstore.put(Tag(n)))
            return UP.FilterGet(actor.fstore, lambda x: x.n == n, rehearsal_time_to_complete=d)
        if op == "sget":
            partner(lambda: actor.sstore.put(Tag(n)))
            return UP.SortedFilterGet(actor.sstore, lambda x: x.n == n, lambda x: x.n, rehearsal_time_to_complete=d)
        if op == "cget":
            tank = simpy.Container(self.env, capacity=9)
            partner(lambda: tank.put(2))
            return UP.Get(tank, 2, rehearsal_time_to_complete=d)
        raise AssertionError(op)

    def build(self, task, actor, node, pending, order):
        if node["op"] in ("any", "all"):
            kids = [self.build(task, actor, n, pending, order) for n in node["parts"]]
            ev = (UP.Any if node["op"] == "any" else UP.All)(*kids)
        else:
            ev = self.leaf(task, actor, node, pending)
        order.append((ev, node["op"], pending[-1] if pending and node["op"] not in ("any", "all", "wait") else None))
        return ev

    def step(self, task, actor, s):
        op, v, d, real = s["op"], s["v"], s["d"], not task._rehearsing
        if op == "wait":
            yield UP.Wait(d)
        elif op == "unit":
            yield UP.Wait(d * 30, timeout_unit="min" if self.plan["unit"] != "s" else "s")
        elif op == "set":
            actor.note = v
        elif op == "append":
            actor.items.append(v)
            actor.items = list(actor.items)
        elif op == "fuel":
            actor.fuel = actor.fuel + v
        elif op == "lin":
            if "fuel" in actor._active_states or "echo" in actor._mimic_states:
                return
            actor.activate_linear_state(state="fuel", rate=float(v - 2), task=task)
            for b in s["body"]:
                yield from self.step(task, actor, b)
            if "fuel" in actor._active_states:
                actor.deactivate_state(state="fuel", task=task)
        elif op == "shared":
            if "load" in actor._active_states:
                return
            actor.activate_state(state="load", task=task, rate=float(v - 2))
            for b in s["body"]:
                yield from self.step(task, actor, b)
            actor.deactivate_state(state="load", task=task)
        elif op == "move":
            if "loc" in actor._active_states or not s["way"]:
                return
            here = actor.loc
            if self.plan["geo"]:
                way = [UP.GeodeticLocation(here.lat + 0.05 * (x or 1), here.lon + 0.05 * y, 0.0) for x, y in s["way"]]
            else:
                way = [UP.CartesianLocation(here.x + (x or 1), here.y + y) for x, y in s["way"]]
            pts = [here] + way
            length = sum(abs(b - a) for a, b in zip(pts, pts[1:]))
            speed = 0.5 + v
            actor.activate_location_state(state="loc", speed=speed, waypoints=way, task=task)
            inner = 0.0
            if s["frac"] < 1:
                for b in s["body"]:
                    if b["op"] not in ("wait", "set", "know", "read"):
                        continue
                    if b["op"] == "wait":
                        b = dict(b, d=min(b["d"], length / speed * 0.1))
                        inner += b["d"]
                    yield from self.step(task, actor, b)
            yield UP.Wait(length / speed * s["frac"] if s["frac"] < 1 else length / speed)
            actor.set_knowledge("left", len(actor.get_remaining_waypoints("loc")) if s["frac"] < 1 else 0, overwrite=True)
            actor.deactivate_state(state="loc", task=task)
        elif op == "dict":
            actor.inv["a"] += 1
        elif op == "newkey":
            actor.inv[f"n{v}"] = v
        elif op == "dc":
            actor.props.hp = float(v)
        elif op == "seen":
            if self.plan["manager"] is None or (self.plan["manager"] == "sensor" and "loc" not in actor._active_states) or task._rehearsing and False:
                actor.seen = not actor.seen
        elif op == "mimic":
            if "echo" in actor._mimic_states or not s["body"]:
                return
            actor.activate_mimic_state(self_state="echo", mimic_state="fuel", mimic_actor=actor if v % 2 else self.other, task=task)
            for b in s["body"]:
                if b["op"] in ("wait", "fuel", "read", "set"):
                    yield from self.step(task, actor, b)
            actor.deactivate_mimic_state(self_state="echo", task=task)
        elif op in ("event", "kevent", "get", "fget", "sget", "cget"):
            ev = self.leaf(task, actor, s, [])
            val = yield ev
            if op in ("get", "fget", "sget"):
                # the placeholder is what tells a task that it is rehearsed
                for x in (val, ev.get_value()):
                    self.ctx.check((x is UP.PLANNING_FACTOR_OBJECT) == (not real), "placeholder", f"{op} gave {x!r} in a {'real run' if real else 'rehearsal'}")
            elif real:
                self.ctx.check(val is not UP.PLANNING_FACTOR_OBJECT, "placeholder", f"{op} gave the placeholder in a real run")
        elif op == "rewait":  # only in the plan of the recorded finding
            long = UP.Wait(d + 2)
            yield UP.Any(long, UP.Wait(1.0))
            yield long
        elif op == "put":
            yield UP.Put(self.bin, v)
        elif op == "hold":
            res = simpy.Resource(self.env)
            if real:
                req = res.request()
                at(self.env, self.env.now + d, lambda: res.release(req))
            hold = UP.ResourceHold(res, rehearsal_time_to_complete=d)
            yield hold
            yield UP.Wait(0.5)
            yield hold
        elif op == "multi":
            pending, order = [], []
            ev = self.build(task, actor, s["tree"], pending, order)
            yield ev
            actor.set_knowledge("done", [(o, e.is_complete()) for e, o, _ in order], overwrite=True)
            # a reasonable task cancels what it no longer waits for
            for e, o, live in order:
                if not e.is_complete() and live is not None:
                    live[0] = False
                    e.cancel()
                    for n in [n for n, x in actor._knowledge.items() if x is e]:
                        actor.clear_knowledge(n)
        elif op == "window":  # its rehearsal stands for the first arrival
            if real:
                yield UP.Wait(d)
                return
            win = UP.WindowedGet(actor.fstore, 7.0, reset_window=v % 2 == 0, get_args=[lambda x: True], get_kwargs=dict(rehearsal_time_to_complete=d))
            got = yield win
            self.ctx.check(got is win.result and len(got) == 1 and got[0] is UP.PLANNING_FACTOR_OBJECT, "window-rehearsal", f"{got!r} {win.result!r}")
        elif op == "routine":
            yield Trip([b["d"] for b in s["body"]])
        elif op == "know":
            actor.set_knowledge(f"k{s['k']}", [v, round(task.env.now, 6)], overwrite=True)
        elif op == "unknow":
            if actor.get_knowledge(f"k{s['k']}") is not None:
                actor.clear_knowledge(f"k{s['k']}")
        elif op == "pop":
            left = actor.get_knowledge("plan")
            if left:
                actor.set_knowledge("took", left.pop(0), overwrite=True)
                actor.set_knowledge("plan", left, overwrite=True)
        elif op == "branch":
            test = [actor.note % 2 == 0, actor.fuel < 98.7654321, actor.env.now > 5.4321, actor.load < 9.8765432, len(actor.items) > 1, actor.echo > 50.1234][v]
            if test:
                for b in s["body"]:
                    yield from self.step(task, actor, b)
        elif op == "loop":
            for _ in range(v % 3):
                for b in s["body"]:
                    yield from self.step(task, actor, b)
        elif op == "read":
            actor.set_knowledge("read", [actor.fuel, actor.load, self.spot(actor.loc), actor.echo, task.env.now, actor.env.now], overwrite=True)
        elif op == "hidden":
            actor.hidden = v
        elif op == "unset":
            actor.unset = v
        elif op == "kind":
            actor.set_knowledge("kind", [actor.kind, actor.fixed[0], [[x.n for x in b.items] for b in (actor.store, actor.radio, actor.given, actor.shelf["low"])], [x.n for b in (actor.fstore, actor.sstore) for x in b.items if x.n < 0], actor.tank.level, sorted(actor.shelf), actor.tank.capacity], overwrite=True)
        elif op == "rand":
            yield UP.Wait.from_random_uniform(1.0, 1.0)
        elif op == "ahead":  # a rehearsal of a rehearsing actor, or of a real one in its task
            before = self.snapshot(actor)
            out = Ahead(d, v).rehearse(actor=actor)
            for what, got, want in (("clock", out.env.now, task.env.now + d), ("note", out.note, v + 10), ("saw", out.get_knowledge("saw"), [before["note"], before["clock"]])):
                self.ctx.check(same(got, want), "ahead", lambda: f"{what}: {got}, should be {want}")
            self.ctx.check(out.env is not task.env and same(self.snapshot(actor), before), "ahead-disturbed", lambda: f"{before} before, {self.snapshot(actor)} after")
            actor.set_knowledge("ahead", [out.env.now, out.note, out.fuel], overwrite=True)
        elif op == "total":
            actor.set_knowledge("total", actor.total, overwrite=True)

    # ---- comparing
    def spot(self, p):
        return (p.lat, p.lon, p.alt) if self.plan["geo"] else (p.x, p.y, p.z)

    def snapshot(self, actor):
        out = {"clock": actor.env.now}
        for n in ("note", "fuel", "load", "seen", "echo", "hidden", "fixed"):
            out[n] = getattr(actor, n)
        out["items"] = list(actor.items)
        out["unset"] = actor.__dict__.get("unset", "never")
        out["loc"] = self.spot(actor.loc)
        out["inv"] = dict(actor.__dict__["inv"])
        out["props"] = dataclasses.astuple(actor.__dict__["props"])
        for n in ("store", "given", "radio", "fstore", "sstore"):
            out[n] = [repr(i) for i in getattr(actor, n).items]
        out["tank"] = actor.tank.level
        out["shelf"] = {k: [repr(i) for i in s.items] for k, s in actor.__dict__["shelf"].items()}
        for k, v in actor._knowledge.items():
            if not isinstance(v, UP.Event):
                out["knowledge." + k] = v if not isinstance(v, list) else list(v)
        out["active"] = sorted(actor._active_states)
        return out

    def compare(self, kind, a, b, where):
        if self.plan.get("rewait"):
            kind = "recounts"
        for k in sorted(set(a) | set(b)):
            x, y = a.get(k, "absent"), b.get(k, "absent")
            self.ctx.check(same(x, y), f"{kind}-{k.split('.')[0]}", lambda: f"{where}: {k}: {x} {'rehearsed' if kind == 'predicts' else 'first'}, {y} {'really' if kind == 'predicts' else 'again'}")

    def stock(self, what):
        a = self.actor
        self.ctx.cover("stocked")
        if what == "tank":
            if a.tank.level < 40:
                a.tank.put(1.5)
            return
        if what == "full":
            if a.tank.level < a.tank.capacity:
                a.tank.put(a.tank.capacity - a.tank.level)
            return
        if what == "stuck":  # asks for what never comes
            a.fstore.get(lambda x: x.n == 1e9)
            a.sstore.get(lambda x: x.n == 1e9)
            return
        self.stocked = getattr(self, "stocked", 0) + 1
        box = a.shelf[what] if what in ("top", "low") else getattr(a, what)
        if len(box.items) < 8:
            box.put(Tag(-self.stocked))

    # ---- phases
    def drive(self):
        for i, p in enumerate(self.plan["phases"]):
            if p["gap"]:
                yield self.env.timeout(p["gap"])
            self.phase = p
            self.starts, self.stop = [], None
            self.serial = 1000 * i
            for what in p.get("stock", []):
                self.stock(what)
            where = f"phase {i} {p['kind']} at {self.env.now}"
            know = dict(plan=[p["v"], 2, 3], k1=["given"]) if p["know"] else {}
            if p["kind"] == "cut":
                yield from self.cut(p)
                continue
            net = None
            if p["kind"] == "net":
                classes = {f"P{k}": t for k, t in enumerate(self.tasks)} | {"D": self.D}
                links = {n: UP.TaskLinks(default=x["default"], allowed=sorted(set(x["allowed"]) | {x["default"]})) for n, x in self.plan["links"].items()}
                net = UP.TaskNetworkFactory(f"net{i}", classes, links).make_network()
                self.actor.add_task_network(net)
                if p["queue"]:
                    self.actor.set_task_queue(net.name, list(p["queue"]))
                if not p["list"]:
                    continue
            inst = None
            if p["kind"] == "task":
                inst = self.insts.setdefault(p["task"], self.tasks[p["task"]]()) if p["reuse"] else self.tasks[p["task"]]()
            elif p["kind"] == "decide":
                inst = self.D()
            first, names, expect = None, None, None
            if net:
                ex, lst = None, p["list"]
                for j, n in enumerate(lst):
                    if n == p["end"]:
                        break
                    if j + 1 < len(lst) and not net.is_feasible(n, lst[j + 1]):
                        ex = (n, lst[j + 1])
                        allowed = set(self.plan["links"][n]["allowed"]) | {self.plan["links"][n]["default"]}
                        self.ctx.check(lst[j + 1] not in allowed, "feasible-wrong", str(ex))
                        break
                    if j + 1 < len(lst):
                        self.ctx.check(lst[j + 1] in set(self.plan["links"][n]["allowed"]) | {self.plan["links"][n]["default"]}, "feasible-wrong", f"{n} {lst[j + 1]}")
                expect = ex
            for again in range(2 if p["twice"] else 1):
                self.starts = []
                try:
                    if net:
                        out = self.actor.rehearse_network(net.name, list(p["list"]), knowledge=know, end_task=p["end"])
                    else:
                        out = inst.rehearse(actor=self.actor, knowledge=know)
                except (Hang, Violation):
                    raise
                except Endless:
                    self.ctx.cover("endless")
                    return
                except SimulationError as e:
                    self.ctx.check(expect is not None and "not allowed" in str(e), "rehearsal-failed", f"{where}: {e!r}")
                    self.ctx.fault("refused-list")
                    return
                except Exception as e:  # noqa: BLE001
                    from dst.core import crash_text
                    self.ctx.violate("rehearsal-failed", f"{where}: {crash_text(e)}")
                self.ctx.check(expect is None, "infeasible-accepted", f"{where}: {expect}")
                snap = self.snapshot(out)
                self.ctx.log("rehearsed", snap["clock"], list(self.starts))
                if again:
                    self.compare("repeat", first, snap, where)
                    self.ctx.check(names == self.starts, "repeat-tasks", f"{where}: {names} then {self.starts}")
                first, names = snap, list(self.starts)
            self.ctx.fault("rehearse:" + p["kind"])
            # ---- now for real, from the same moment
            for k, v in know.items():
                self.actor.set_knowledge(k, list(v), overwrite=True)
            self.starts = []
            self.serial = 1000 * i
            if net:
                self.done = self.env.event()
                self.stop = ("at", p["end"]) if p["end"] is not None else ("after", len(p["list"]))
                self.actor.clear_task_queue(net.name)
                self.actor.set_task_queue(net.name, list(p["list"]) + list(p["queue"]))
                self.actor.start_network_loop(net.name, p["list"][0])
                yield self.done
                real = self.seen
                self.ctx.check(names == self.starts, "predicts-tasks", lambda: f"{where}: rehearsed {names}, really {self.starts}")
            else:
                proc = inst.run(actor=self.actor)
                yield proc
                real = self.snapshot(self.actor)
            self.compare("predicts", first, real, where)
            if real["clock"] > self.env.now - 1e-12 and real["clock"] > self.plan["t0"]:
                self.ctx.nontrivial = True

    def cut(self, p):
        inst = self.insts.setdefault(p["task"], self.tasks[p["task"]]()) if p["reuse"] else self.tasks[p["task"]]()
        proc = inst.run(actor=self.actor)
        yield simpy.AnyOf(self.env, [proc, self.env.timeout(p["cut"])])
        if proc.is_alive:
            proc.interrupt(cause="cut")
            self.epoch += 1
            self.ctx.fault("cut")
            yield proc
        # what the task was promised may still come: start from an empty slate of promises
        yield self.env.timeout(40 * self.plan["grid"])
        for st in (self.actor.fstore, self.actor.sstore):
            st.items[:] = [x for x in st.items if x.n < 0]
        while self.actor.tank.level > 0:
            yield self.actor.tank.get(self.actor.tank.level)
        for n in [n for n, e in self.actor._knowledge.items() if isinstance(e, UP.Event)]:
            self.actor.clear_knowledge(n)


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and close(a, b, 1e-6)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return a == b and type(a) is type(b)


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"], random_seed=5) as env:
        UP.add_stage_variable("time_unit", plan["unit"])
        UP.add_stage_variable("distance_units", "nmi")
        UP.add_stage_variable("altitude_units", "ft")
        UP.add_stage_variable("stage_model", UP.SphericalEarth if hasattr(UP, "SphericalEarth") else __import__("upstage_des.geography", fromlist=["Spherical"]).Spherical)
        UP.add_stage_variable("intersection_model", __import__("upstage_des.geography", fromlist=["get_intersection_locations"]).get_intersection_locations)
        w = World(plan, ctx, env)
        proc = env.process(w.drive())
        while env._queue and proc.is_alive:
            env.step()
        if proc.triggered and not proc.ok:
            raise proc.value
        ctx.check(not proc.is_alive, "real-run-stuck", "the real tasks never finished although every planned event succeeded")
