"""C24: environment contexts are isolated from one another."""
import contextvars
import random
import sys
import threading
import warnings
from collections import Counter

import simpy
import upstage_des.api as UP
from upstage_des import base as B
from upstage_des.base import EnvironmentContext, clear_top_context, create_top_context
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
from upstage_des.motion import cartesian_model

from dst.core import SimEnv, Stop, Violation, crash_text

ID = "C24"
RUNS = {"quick": 3500, "thorough": 200000}
SHRINK = ["ops", "worlds", "outer", "inner"]
RULE = ("2-5 worlds (an environment context with 3-25 operations each: actors and entities of nine classes sharing groups, "
        "monitored resources, stage variables, recorded data, random draws, tasks, shared task network factories, mimicking "
        "states, a motion manager, partial runs; nested worlds to depth 3, copied contexts, empty threads; left normally, "
        "by exception, by being closed or thrown away) are run alone and then interleaved by a seeded scheduler: in one "
        "context after another, in copied contexts switched at every operation, and in real threads that pass one baton "
        "at every operation and at seeded lines inside upstage's own code. Each world must see exactly what a reference "
        "model says and log exactly what it logs alone; what is visible around it must be restored. "
        "Non-trivial: two worlds interleaved and one of them nested or left by an exception.")
REAL = ["upstage_des base, actors, states, tasks, task networks, monitored resources, motion manager, data_utils; contextvars; threading"]
STUB = ["thread switching: one thread runs at a time, a tracing function hands over at seeded lines of upstage_des"]
ASSUME = ["each context object is entered once at a time and left in the order of nesting",
          "copied contexts share the enclosing environment by design",
          "stage variables are set by add_stage_variable, attribute or item, not by other dictionary methods",
          "an environment is run inside its own context"]

SRC = "/upstage_des/"


class Car(UP.Actor, entity_groups=["vehicle", "fast"]):
    n = UP.State(default=0, recording=True)
    m = UP.State(default=0, recording=True)
    v = UP.LinearChangingState(default=0.0, recording=True)
    bag = UP.State(default_factory=list)
    store = UP.ResourceState(default=UP.SelfMonitoringStore)


class Truck(Car, entity_groups="heavy"):
    load = UP.State(default=1.5, recording=True, recording_functions=[(lambda t, v: v * 2, "twice")])


class Ghost(Car, add_to_entity_groups=False):
    pass


class Noname(Car, entity_groups=["vehicle", "quiet"], skip_classname=True):
    pass


class Amphi(Truck, Noname):
    pass


class Falsy(random.Random):
    """A generator is used because it was given, whatever its truth."""

    def __bool__(self):
        return False


class Big(UP.NamedUpstageEntity, entity_groups="big"):
    pass


class Wet(UP.NamedUpstageEntity, entity_groups=["wet", "site"], skip_classname=True):
    pass


class Boat(Car, Big, Wet, entity_groups=[]):
    pass


class Plain(UP.NamedUpstageEntity):
    def __init__(self, name):
        super().__init__()
        self.name = name


class Depot(Plain, entity_groups=("site", "fast")):
    pass


class Shelf(UP.SelfMonitoringFilterStore, entity_groups=["site"]):
    pass


class Flyer(UP.Actor):
    loc = UP.CartesianLocationChangingState(recording=True)
    seen = UP.DetectabilityState(default=True)


class Tower(UP.Actor, entity_groups="site"):
    spot = UP.State()
    reach = UP.State()

    def entity_entered_range(self, e):
        self.w.log("in", self.name, e.name, self.env.now)

    def entity_exited_range(self, e):
        self.w.log("out", self.name, e.name, self.env.now)


GROUPS = {
    "Car": {"Car", "vehicle", "fast"},
    "Truck": {"Truck", "heavy", "Car", "vehicle", "fast"},
    "Ghost": set(),
    "Noname": {"vehicle", "quiet", "Car", "fast"},
    "Amphi": {"Amphi", "Truck", "heavy", "Car", "vehicle", "fast", "quiet"},
    "Boat": {"Boat", "Car", "vehicle", "fast", "Big", "big", "wet", "site"},
    "Plain": {"Plain"},
    "Depot": {"Plain", "Depot", "site", "fast"},
    "Shelf": {"Shelf", "site"},
    "Flyer": {"Flyer"},
    "Tower": {"Tower", "site"},
}
ACTORS = {c.__name__: c for c in (Car, Truck, Ghost, Noname, Amphi, Boat)}
KEYS = ["depth", "items", "copy", "time_unit", "x", "get", "random", "keys", "y"]


class Job(UP.Task):
    def task(self, *, actor):
        w = self.w
        for i in range(self.p["n"]):
            w.inside(self)
            actor.activate_state(state="v", task=self, rate=1.0 + i)
            yield UP.Wait(self.stage.random.uniform(0.1, 2.0))
            actor.deactivate_all_states(task=self)
            actor.n += 1
            actor.bag.append(i)
            w.log("job", self.p["tag"], i, self.env.now, actor.v)
            yield UP.Put(actor.store, (self.p["tag"], i))

    def on_interrupt(self, *, actor, cause):
        self.w.log("intr", self.p["tag"], cause, self.env.now)
        actor.deactivate_all_states(task=self)
        return self.INTERRUPT.END


class Ape(UP.Task):
    def task(self, *, actor):
        o = self.w.actors[self.p["o"] % len(self.w.actors)]
        o = o if isinstance(o, Car) and o is not actor else None
        if o is not None:
            try:
                actor.activate_mimic_state(self_state="m", mimic_state="n", mimic_actor=o, task=self)
            except UP.UpstageError as e:
                self.w.log("no", str(e))
                o = None
        yield UP.Wait(self.p["d"])
        self.w.log("ape", actor.name, actor.m, self.env.now)
        if o is not None:
            actor.deactivate_mimic_state(self_state="m", task=self)


class Choose(UP.DecisionTask):
    def make_decision(self, *, actor):
        if self.stage.random.random() < 0.7:
            self.set_actor_task_queue(actor, ["Rest", "Choose"])
        else:
            self.set_actor_task_queue(actor, ["Shift", "Choose"])


class Rest(UP.Task):
    def task(self, *, actor):
        yield UP.Wait.from_random_uniform(0.2, 1.0)


class Shift(UP.Task):
    def task(self, *, actor):
        actor.n += len(self.get_actors())
        yield UP.Wait(0.5)


FACTORY = UP.TaskNetworkFactory(
    "net", {"Choose": Choose, "Rest": Rest, "Shift": Shift},
    {n: UP.TaskLinks(default="Choose", allowed=["Choose", "Rest", "Shift"]) for n in ("Choose", "Rest", "Shift")})


class Fly(UP.Task):
    def task(self, *, actor):
        x, y = self.p["to"]
        actor.activate_location_state(state="loc", speed=2.0, waypoints=[UP.CartesianLocation(x, y)], task=self)
        yield UP.Wait(self.p["d"])
        actor.deactivate_all_states(task=self)


class Bang(Exception):
    pass


class HardBang(BaseException):
    pass


# ---------------------------------------------------------------- generating

def gen_world(rng, depth, big):
    ops = []
    n = rng.randint(3, 18 if big else 10)
    mgr = rng.random() < 0.25
    if mgr:
        ops.append(["mgr"])
    for _ in range(n):
        k = rng.random()
        if k < 0.22:
            ops.append(["actor", rng.choice(list(ACTORS)), rng.random() < 0.15])
        elif k < 0.28:
            ops.append(["ent", rng.choice(["Plain", "Depot"])])
        elif k < 0.33:
            ops.append(["res", rng.choice(["store", "container", "shelf"])])
        elif k < 0.43:
            ops.append(["stage", rng.choice(["add", "attr", "item"]), rng.choice(KEYS), rng.randint(0, 12)])
        elif k < 0.47:
            ops.append(["get", rng.choice(KEYS)])
        elif k < 0.51:
            ops.append(["rec", rng.randint(0, 9)])
        elif k < 0.55:
            ops.append(["draw"])
        elif k < 0.65:
            ops.append(["run", round(rng.uniform(0.1, 3.0), 2)])
        elif k < 0.75:
            ops.append(["job", rng.randint(0, 5), rng.randint(1, 4)])
        elif k < 0.80:
            ops.append(["ape", rng.randint(0, 5), rng.randint(0, 5), round(rng.uniform(0.1, 4.0), 2)])
        elif k < 0.84:
            ops.append(["net", rng.randint(0, 5)])
        elif k < 0.88:
            ops.append(["intr", rng.randint(0, 5)])
        elif k < 0.91 and mgr:
            ops.append(["fly", rng.randint(-6, 6), rng.randint(-6, 6), round(rng.uniform(0.5, 4.0), 2)])
        elif k < 0.94:
            ops.append([rng.choice(["copied", "probe", "dirty"])])
        elif depth < 3:
            ops.append(["child", rng.choice(["here", "here", "copy", "thread"]), gen_world(rng, depth + 1, False)])
        else:
            ops.append(["run", 1.0])
    return dict(ops=ops, t0=rng.choice([0.0, 0.0, 5.0, 3.25]), seed=rng.randint(0, 10**6),
                how=rng.choice(["with", "with", "with", "top", "reuse"]),
                exit=rng.choice(["ok", "ok", "ok", "raise", "hard", "sim"]),
                badseed=rng.random() < 0.12, gen=rng.random() < 0.2)


def gen(rng, tier):
    big = rng.random() < (0.3 if tier == "quick" else 0.6)
    worlds = []
    for _ in range(rng.randint(2, 4 if not big else 6)):
        worlds.append(dict(world=gen_world(rng, 1, big), carrier=rng.choice(["copy", "copy", "thread", "thread", "fresh", "main"]),
                           drop=rng.randint(1, 8) if rng.random() < 0.12 else None))
    return dict(worlds=worlds, outer=[gen_world(rng, 2, False)] if rng.random() < 0.4 else [],
                sched=rng.randint(0, 10**9), preempt=rng.choice([0, 5, 20, 80, 300]))


# ---------------------------------------------------------------- one world

VARS = (B.ENV_CONTEXT_VAR, B.SPECIAL_ENTITY_CONTEXT_VAR, B.ENTITY_CONTEXT_VAR, B.STAGE_CONTEXT_VAR)


def visible():
    return tuple(v.get(None) for v in VARS)


def same(a, b):
    return all(x is y for x, y in zip(a, b))


class World:
    def __init__(self, spec, ctx, name, faults):
        self.spec, self.ctx, self.name, self.faults = spec, ctx, name, faults
        self.lines = []
        self.env = None
        self.done = False

    def log(self, *items):
        self.lines.append(repr(items))

    def bad(self, kind, msg):
        self.ctx.violate(kind, f"world {self.name}: {msg}")

    def fault(self, what):
        if self.faults:
            self.ctx.fault(what)

    # -- the life of one world, a step of the scheduler at each yield
    def life(self):
        s = self.spec
        before = visible()
        if s["badseed"]:
            self.fault("refused-seed")
            try:
                with EnvironmentContext(random_seed=[]):
                    self.bad("bad-seed", "accepted")
            except TypeError:
                pass
            if not same(before, visible()):
                self.bad("not-restored", "after a refused context")
        if s["seed"] % 4 == 0:
            # a context without a seed of its own has a generator of its own
            around = B.STAGE_CONTEXT_VAR.get(None)
            state = around.random.getstate() if around is not None else None
            with EnvironmentContext():
                mine = B.get_stage().random
                mine.random()
                with EnvironmentContext():
                    if B.get_stage().random is mine or around is not None and mine is around.random:
                        self.bad("generator", "shared by two contexts")
            if around is not None and around.random.getstate() != state:
                self.bad("generator", "another context drew from it")
        kw = dict(initial_time=s["t0"])
        if s["gen"]:
            self.rng = Falsy(s["seed"])
        else:
            kw["random_seed"] = s["seed"]
        again = EnvironmentContext(**kw, **self.own_rng()) if s["how"] == "reuse" else None
        for turn in range(2 if again else 1):
            if turn and s["gen"]:
                self.rng.seed(s["seed"])
            mark = len(self.lines)
            if s["how"] == "top":
                top = create_top_context(**kw, **self.own_rng())
                try:
                    yield from self.body(top.env_ctx.get())
                except (Bang, HardBang, UP.SimulationError) as e:
                    self.fault("left-by-exception")
                    self.log("left", type(e).__name__)
                finally:
                    clear_top_context(top)
            else:
                try:
                    with again or EnvironmentContext(**kw, **self.own_rng()) as env:
                        yield from self.body(env)
                except (Bang, HardBang, UP.SimulationError) as e:
                    self.fault("left-by-exception")
                    self.log("left", type(e).__name__)
            if not same(before, visible()):
                self.bad("not-restored", f"leaving by {s['exit']} changed what is visible outside")
            if turn and self.lines[:mark] != self.lines[mark:]:
                k, a, b = differ(self.lines[:mark], self.lines[mark:])
                self.bad("reuse", f"entering the same context again: line {k} was {a} now {b}")
            if again:
                self.log("turn")
                self.lines.pop()
            yield
        self.done = True

    def own_rng(self):
        return dict(random_gen=self.rng) if self.spec["gen"] else {}

    def body(self, env):
        s = self.spec
        env.__class__ = SimEnv
        env._ctx, env._hooks, env._step_hooks = self.ctx, [], []
        self.env = env
        self.me = UP.UpstageBase()
        self.actors, self.cars, self.monitored, self.recorded = [], [], [], []
        self.groups, self.stage, self.procs, self.count = {}, {"random": B.get_stage().random}, [], Counter()
        if s["gen"] and B.get_stage().random is not self.rng:
            self.bad("generator", "the given generator is not the stage's")
        self.see()
        for op in s["ops"]:
            yield
            if op[0] == "child":
                yield from self.child(op)
            else:
                self.do(op)
            self.see()
        yield
        if s["exit"] == "raise":
            raise Bang()
        if s["exit"] == "hard":
            raise HardBang()
        if s["exit"] == "sim" and self.cars:
            class Die(UP.Task):
                def task(self, *, actor):
                    yield UP.Wait(0.1)
                    raise UP.SimulationError("died")
            Die().run(actor=self.cars[0])
            env.run(until=env.now + 1.0)
        self.finish()
        self.see()

    def finish(self):
        self.log("table", *map(tuple, create_table()[0]))
        self.log("places", *map(tuple, create_location_table()[0]))
        self.log("data", get_recorded_data())
        for a in self.actors:
            self.log(a.name, sorted((k, v) for k, v in a._state_histories.items() if k != "loc"))
            self.log(a.name, a.get_log())
        for r in self.monitored:
            self.log(type(r).__name__, r._quantities)

    # -- what must be visible
    def see(self):
        me = self.me
        if me.env is not self.env:
            self.bad("clock", "another world's environment")
        if not (len(me.get_actors()) == len(self.actors) and all(a is b for a, b in zip(me.get_actors(), self.actors))):
            self.bad("actors", f"{me.get_actors()} instead of {self.actors}")
        got = {k: v for k, v in me.get_all_entity_groups().items()}
        if got.keys() != self.groups.keys():
            self.bad("groups", f"groups {sorted(got)} instead of {sorted(self.groups)}")
        for k, want in self.groups.items():
            one = me.get_entity_group(k)
            if len(one) != len(want) or any(a is not b for a, b in zip(one, want)) or got[k] is not one:
                self.bad("groups", f"group {k}: {one} instead of {want}")
        if me.get_entity_group("never") or me.get_entity_group("car") or me.get_entity_group("FAST"):
            self.bad("groups", "an unused group has members")
        mon = me.get_monitored()
        if len(mon) != len(self.monitored) or any(a is not b for a, b in zip(mon, self.monitored)):
            self.bad("monitored", f"{mon} instead of {self.monitored}")
        if list(me.get_recorded()) != self.recorded:
            self.bad("recorded", f"{me.get_recorded()} instead of {self.recorded}")
        st = B.get_stage()
        if me.stage is not st or dict(st) != self.stage:
            self.bad("stage", f"{dict(st)} instead of {self.stage}")
        self.log("now", me.pretty_now, self.env.now)

    def inside(self, thing):
        if thing.env is not self.env or B.get_stage().get("random") is not self.stage["random"]:
            self.bad("task-context", "a task ran in another world's context")

    def made(self, thing, actor=False, monitored=False):
        if actor:
            self.actors.append(thing)
        if monitored:
            self.monitored.append(thing)
        for g in GROUPS.get(type(thing).__name__, ()):
            self.groups.setdefault(g, []).append(thing)

    def pick(self, i):
        return self.cars[i % len(self.cars)] if self.cars else None

    def new(self, what):
        self.count[what] += 1
        return f"{what}{self.count[what]}"

    # -- operations
    def do(self, op):
        kind = op[0]
        if kind == "actor":
            # the same names are used in every world
            a = ACTORS[op[1]](name="dup" if op[2] else self.new("a"))
            self.cars.append(a)
            self.made(a, actor=True)
            self.monitored.append(a.store)
        elif kind == "ent":
            self.made({"Plain": Plain, "Depot": Depot}[op[1]](self.new("e")))
        elif kind == "res":
            r = {"store": lambda: UP.SelfMonitoringStore(self.env, name=self.new("r")),
                 "container": lambda: UP.SelfMonitoringContainer(self.env, name=self.new("r")),
                 "shelf": lambda: Shelf(self.env, name=self.new("r"))}[op[1]]()
            self.made(r, monitored=True)
        elif kind == "stage":
            self.set_stage(*op[1:])
        elif kind == "get":
            try:
                got = B.get_stage_variable(op[1])
                if op[1] not in self.stage or got is not self.stage[op[1]]:
                    self.bad("stage", f"variable {op[1]} is {got}")
            except UP.UpstageError:
                if op[1] in self.stage:
                    self.bad("stage", f"variable {op[1]} is set but refused")
            if op[1] in ("x", "y", "time_unit", "depth"):
                try:
                    if getattr(self.me.stage, op[1]) is not self.stage[op[1]]:
                        self.bad("stage", f"attribute {op[1]}")
                except (AttributeError, KeyError) as e:
                    if (op[1] in self.stage) or not isinstance(e, AttributeError):
                        self.bad("stage", f"attribute {op[1]}: {e!r}")
        elif kind == "rec":
            data = ("rec", self.name[-1], op[1])
            record_data(data)
            self.recorded.append((self.env.now, data))
        elif kind == "draw":
            self.log("draw", B.get_stage().random.random())
        elif kind == "run":
            t = self.env.now + op[1]
            self.env.run(until=t)
            if self.env.now != t:
                self.bad("clock", f"{self.env.now} after running until {t}")
        elif kind in ("job", "ape", "net", "intr"):
            a = self.pick(op[1])
            if a is None:
                return
            if kind == "job":
                t = Job()
                t.w, t.p = self, dict(n=op[2], tag=len(self.procs))
                self.procs.append(t.run(actor=a))
            elif kind == "ape":
                t = Ape()
                t.w, t.p = self, dict(o=op[2], d=op[3])
                t.run(actor=a)
            elif kind == "net":
                net = FACTORY.make_network()
                name = self.new("net")
                net.name = name
                a.add_task_network(net)
                a.start_network_loop(name, init_task_name="Choose")
            else:
                live = [p for p in self.procs if p.is_alive]
                if live:
                    live[op[1] % len(live)].interrupt("stop")
        elif kind == "mgr":
            if "motion_manager" not in self.stage:
                m = UP.SensorMotionManager(cartesian_model.cartesian_linear_intersection)
                B.add_stage_variable("motion_manager", m)
                self.stage["motion_manager"] = m
                t = Tower(name="tower", spot=UP.CartesianLocation(0, 0), reach=3.0)
                t.w = self
                self.made(t, actor=True)
                m.add_sensor(t, location_attr_name="spot", radius_attr_name="reach")
        elif kind == "fly":
            if "motion_manager" in self.stage:
                f = Flyer(name=self.new("f"), loc=UP.CartesianLocation(op[1], op[2]))
                self.made(f, actor=True)
                t = Fly()
                t.w, t.p = self, dict(to=(-op[2], op[1] + 1), d=op[3])
                t.run(actor=f)
        elif kind == "copied":
            # a copied context shares the enclosing environment
            self.fault("copied-context")
            cx = contextvars.copy_context()
            cx.run(self.do, ["actor", "Truck", False])
            cx.run(self.see)
            cx.run(self.do, ["stage", "add", "y", 5])
        elif kind == "probe":
            self.fault("empty-thread")
            self.in_thread(self.probe)
        elif kind == "dirty":
            # entities made outside any environment are nobody's
            self.fault("outside-entity")
            contextvars.Context().run(self.outside)

    def set_stage(self, how, key, val):
        value = "min" if key == "time_unit" else [0, False, None, "", ()][val] if val < 5 else ["val", val]
        try:
            if how == "add":
                B.add_stage_variable(key, value)
            elif how == "attr":
                setattr(self.me.stage, key, value)
            else:
                self.me.stage[key] = value
            if key in self.stage:
                self.bad("replaced", f"stage variable {key} was silently replaced ({how})")
            self.stage[key] = value
        except (UP.UpstageError, AttributeError) as e:
            if key not in self.stage:
                self.bad("stage", f"setting {key} ({how}) refused: {e!r}")
            self.fault("set-twice")

    def outside(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Plain("nobody")
            me = UP.UpstageBase()
        try:
            me.env
            self.bad("outside", "an environment is visible in an empty context")
        except UP.UpstageError:
            pass
        for _ in (1,):
            with EnvironmentContext() as env:
                Depot("other")
                if me.env is not env or len(me.get_entity_group("fast")) != 1 or me.get_entity_group("Plain")[0].name != "other":
                    self.bad("outside", f"{me.get_all_entity_groups()}")
                if me.get_actors() or me.get_monitored() or me.get_recorded() or list(me.stage) != ["random"]:
                    self.bad("outside", "a new context is not empty")

    def probe(self):
        me = UP.UpstageBase.__new__(UP.UpstageBase)
        for what in ("env", "stage", "get_actors", "get_monitored", "get_recorded", "get_all_entity_groups"):
            try:
                got = getattr(me, what)
                if what.startswith("get"):
                    got()
                self.bad("thread", f"{what} of a context is visible in a new thread")
            except UP.UpstageError:
                pass
        self.outside()

    def in_thread(self, fn):
        res = []

        def go():
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                res.append(e)
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join()
        if res:
            raise res[0]

    def child(self, op):
        w = World(op[2], self.ctx, self.name + "." + self.new(""), self.faults)
        before = visible()
        if op[1] == "here":
            yield from w.life()
        elif op[1] == "copy":
            self.fault("nested-in-copy")
            contextvars.copy_context().run(lambda: [0 for _ in w.life()])
        else:
            self.fault("nested-in-thread")
            self.in_thread(lambda: [0 for _ in w.life()])
        if not same(before, visible()):
            self.bad("not-restored", f"after nested world ({op[1]})")
        self.lines.append(("child",) + tuple(w.lines))


def differ(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, tuple) and isinstance(y, tuple):
                return differ(x, y)
            return k, x[:600], y[:600]
    return min(len(a), len(b)), "nothing" if len(a) < len(b) else str(a[len(b)])[:300], "nothing" if len(b) <= len(a) else str(b[len(a)])[:300]


# ---------------------------------------------------------------- carriers

class Carrier:
    """A world run in its own contextvars context, one operation per turn."""

    def __init__(self, world, cx):
        self.world, self.cx = world, cx
        self.g = world.life()
        self.before = cx.run(visible)
        self.done = False

    def turn(self):
        try:
            self.cx.run(next, self.g)
        except StopIteration:
            self.done = True

    def drop(self):
        self.cx.run(self.g.close)
        self.done = True

    def end(self):
        if not same(self.before, self.cx.run(visible)):
            self.world.bad("not-restored", "around a finished or dropped world")


class Dead(BaseException):
    pass


class Threaded:
    """A world in a real thread, handed the baton for one turn at a time."""

    def __init__(self, world, seed, mean):
        self.world = world
        self.rng = random.Random(seed)
        self.mean = mean
        self.mine, self.main = threading.Semaphore(0), threading.Semaphore(0)
        self.done = self.dead = self.dropped = False
        self.exc = None
        self.k = self.draw()
        self.switches = 0
        self.t = threading.Thread(target=self.go, daemon=True)
        self.t.start()

    def draw(self):
        return 1 + int(self.rng.expovariate(1.0 / self.mean)) if self.mean else 0

    def turn(self):
        self.mine.release()
        self.main.acquire()
        if self.exc is not None:
            raise self.exc

    def drop(self):
        self.dropped = True
        self.turn()

    def pause(self):
        self.main.release()
        self.mine.acquire()
        if self.dead:
            raise Dead()

    def trace(self, frame, event, arg):
        return self.line if SRC in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        if event == "line":
            self.k -= 1
            if self.k <= 0:
                self.k = self.draw()
                self.switches += 1
                self.pause()
        return self.line

    def go(self):
        self.mine.acquire()
        if self.dead:
            return
        try:
            before = visible()
            g = self.world.life()
            if self.mean:
                sys.settrace(self.trace)
            try:
                for _ in g:
                    self.pause()
                    if self.dropped:
                        g.close()
                        break
            finally:
                sys.settrace(None)
            if not same(before, visible()):
                self.world.bad("not-restored", "around a finished or dropped world")
        except Dead:
            return
        except BaseException as e:  # noqa: BLE001
            self.exc = e
        self.done = True
        self.main.release()

    def end(self):
        pass

    def kill(self):
        if not self.done:
            self.dead = True
            self.mine.release()
            self.t.join(5)


def run(plan, ctx):
    carriers = []
    try:
        _run(plan, ctx, carriers)
    finally:
        for c in carriers:
            if isinstance(c, Threaded):
                c.kill()
            elif not c.done:
                c.drop()


def alone(spec, ctx, name):
    w = World(spec, ctx, name, False)
    contextvars.Context().run(lambda: [0 for _ in w.life()])
    return w.lines


def _run(plan, ctx, carriers):
    here = visible()
    refs = [alone(x["world"], ctx, f"{k}") for k, x in enumerate(plan["worlds"])]
    outer_ref = [alone(x, ctx, "outer") for x in plan["outer"]]
    rng = random.Random(plan["sched"])
    outer = None
    if plan["outer"]:
        outer = World(plan["outer"][0], ctx, "outer", True)
        oc = Carrier.__new__(Carrier)
        # opened in the main context, so the copies taken below see it
        oc.world, oc.cx, oc.g, oc.done, oc.before = outer, _Here(), outer.life(), False, here
        oc.turn()
        if not oc.done:
            oc.turn()
        carriers.append(oc)
        ctx.cover("outer")
    live = []
    for k, x in enumerate(plan["worlds"]):
        w = World(x["world"], ctx, f"{k}", True)
        if x["carrier"] == "thread":
            c = Threaded(w, plan["sched"] + k, plan["preempt"])
        elif x["carrier"] == "main" and outer is None:
            if any(isinstance(o.cx, _Here) for o in carriers if isinstance(o, Carrier)):
                cx = contextvars.copy_context()
            else:
                cx = _Here()
            c = Carrier(w, cx)
        else:
            c = Carrier(w, contextvars.Context() if x["carrier"] == "fresh" else contextvars.copy_context())
        c.left, c.kind, c.which = x["drop"], x["carrier"], k
        ctx.cover(f"carrier-{x['carrier']}")
        live.append(c)
        carriers.append(c)
    if outer is not None:
        carriers[0].left, carriers[0].kind, carriers[0].which = None, "outer", None
        live.append(carriers[0])
    turns, last, switches = 0, None, 0
    while live:
        c = live[rng.randrange(len(live))]
        if last is not c:
            switches += 1
        last = c
        turns += 1
        ctx.log("turn", c.which)
        if c.left is not None:
            c.left -= 1
            if c.left < 0:
                ctx.fault("dropped")
                c.left = None
                c.was_dropped = True
                c.drop()
        else:
            c.turn()
        if c.done:
            live.remove(c)
            c.end()
    if not same(here, visible()):
        ctx.violate("not-restored", "around everything")
    for c in carriers:
        ref = outer_ref[0] if c.which is None else refs[c.which]
        got = c.world.lines
        if getattr(c, "was_dropped", False) and not c.world.done:
            ref = ref[:len(got)]
        if got != ref:
            k, a, b = differ(ref, got)
            ctx.violate("interference", f"world {c.world.name} ({c.kind}): line {k} alone: {a} | interleaved: {b}")
        if isinstance(c, Threaded):
            ctx.fault("preempted-in-upstage", c.switches)
    ctx.cover("switches", switches)
    for x in plan["worlds"]:
        ctx.cover(f"exit-{x['world']['exit']}")
        ctx.cover(f"how-{x['world']['how']}")
    ctx.nontrivial = switches >= 4 and len(carriers) >= 2 and (ctx.faults["left-by-exception"] > 0 or any(
        o[0] == "child" for x in plan["worlds"] for o in x["world"]["ops"]))


class _Here:
    """The context the harness itself runs in."""

    def run(self, fn, *args):
        return fn(*args)
