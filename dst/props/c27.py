"""C27: observing a simulation does not change it."""
import warnings

import simpy
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
from upstage_des.state_sharing import SharedLinearChangingState

from dst.core import at
from dst.props import c23
from dst.props.c23 import Props, draw, text

ID = "C27"
RUNS = {"quick": 2500, "thorough": 90000}
SHRINK = ["acts", "actors", "nets", "sensors", "links", "faults", "side", "views"]
RULE = ("a generated model (that of C23: task networks and nuclei, active, shared and mimicked states under interrupts, stores, "
        "containers, motion managers, routed and direct communication, knowledge, clones, rehearsals; with continuous, reserve and plain containers, a sorted store, and lists and dictionaries several actors hold and change) runs once unobserved "
        "and again under observations: any states recording, with duplicates and recording functions, self-monitoring "
        "instead of plain resources, logs of actors, communication and motion managers, a monitoring process, and after "
        "generated events and instants tables, logs, queues, running tasks, groups, knowledge, stored items read. "
        "What the actors did and found, the final values of all states, contents of all stores, knowledge and the next "
        "random draw must be the same. Non-trivial: over 25 lines and something observed.")
REAL = ["all of upstage_des that takes part in simulations and observes them; simpy"]
STUB = []
ASSUME = ["reading an active state samples it (documented) and is not among the observations made meanwhile",
          "recording functions and item summaries given by the user change nothing themselves"]

STATES = ["fuel", "heat", "oil", "water", "power", "loc", "seen", "luck", "charm", "skill", "wit", "mood", "mode", "echo", "echo2", "notes", "props", "roar", "pile", "ring"]
PLAIN = ["luck", "charm", "skill", "mood", "mode", "echo", "echo2", "seen"]


def as_text(time, value):
    return str(value)


class Last:
    def __call__(self, time, value):
        self.seen = (time, str(value))
        return self.seen


def zoos(view):
    """The actor classes of the model, with the observations built in."""

    def r(name, **kw):
        if name in view["record"]:
            kw["recording"] = True
            if name in view["dup"] and name not in ("notes", "props", "power", "loc", "seen"):
                kw["record_duplicates"] = True
            if name in view["funcs"] and name not in ("notes", "props", "power", "loc", "seen"):
                kw["recording_functions"] = [(as_text, f"{name}_text"), (Last, f"{name}_last")]
        return kw

    def kind(name, plain, mon):
        return mon if name in view["mon"] else plain

    class Zoo(UP.Actor, entity_groups=["animals", "all", "moving", "b2"]):
        fuel = UP.LinearChangingState(default=100.0, **r("fuel"))
        heat = UP.LinearChangingState(default=0.0, **r("heat"))
        oil = UP.LinearChangingState(default=7.0, **r("oil"))
        water = UP.LinearChangingState(default_factory=lambda: float(draw() % 97), **r("water"))
        power = SharedLinearChangingState(default=10.0, **r("power"))
        loc = UP.CartesianLocationChangingState(**r("loc"))
        seen = UP.DetectabilityState(default=True, **r("seen"))
        luck = UP.State(default_factory=draw, **r("luck"))
        charm = UP.State(default_factory=draw, **r("charm"))
        skill = UP.State(default_factory=draw, **r("skill"))
        wit = UP.State(default_factory=draw, no_init=True, **r("wit"))
        mood = UP.State(default=0, **r("mood"))
        mode = UP.State(default="idle", **r("mode"))
        echo = UP.State(default=0, **r("echo"))
        echo2 = UP.State(default=0, **r("echo2"))
        bag = UP.ResourceState(default=kind("bag", simpy.Store, UP.SelfMonitoringStore))
        tank = UP.ResourceState(default=kind("tank", simpy.Container, UP.SelfMonitoringContainer), default_kwargs={"capacity": 50, "init": 20})
        radio = UP.CommunicationStore(modes=["uhf", "vhf"])
        shelf = UP.MultiStoreState(default=kind("shelf", simpy.Store, UP.SelfMonitoringStore))
        notes = UP.DictionaryState(**r("notes"))
        props = UP.DataclassState(**r("props"))
        pile = UP.State(default_factory=list, **r("pile"))
        ring = UP.State(default_factory=dict, **r("ring"))

        def entity_entered_range(self, e):
            self.zoo.say("entered", self.name, e.name, self.stage.random.randint(0, 99))

        def entity_exited_range(self, e):
            self.zoo.say("exited", self.name, e.name, self.stage.random.randint(0, 99))
            if isinstance(self, Lion):
                self.zoo.soon(lambda: setattr(self, "mood", self.mood + 1))

    class Lion(Zoo, entity_groups=["cats", "predators"]):
        roar = UP.State(default_factory=draw, **r("roar"))

    return Zoo, Lion


NOTHING = dict(record=[], dup=[], funcs=[], mon=[], log=False, debug=False, logtime=None, tick=None, probes=[])


class World(c23.World):
    def __init__(self, plan, env, view):
        self.view = view
        self.zoo, self.lion = zoos(view)
        self.debug = view["debug"]
        if "market" in view["mon"]:
            self.market_kind, self.filter_kind = UP.SelfMonitoringStore, UP.SelfMonitoringFilterStore
        else:
            self.market_kind, self.filter_kind = simpy.Store, simpy.FilterStore
        self.looks = 0
        super().__init__(plan, env)
        self.yard()
        if view["tick"]:
            self.monitor(view["tick"])
        for p in view["probes"]:
            if p["when"] == "step":
                env._step_hooks.append(lambda p=p: self.due(p))
            else:
                env._hooks.append(lambda p=p: self.due(p))

    # -- other resources, and things that several states hold
    def yard(self):
        mon = self.view["mon"]
        y = self.plan["yard"]
        full, empty = y["errors"]
        self.tube = (UP.SelfMonitoringContinuousContainer if "tube" in mon else UP.ContinuousContainer)(self.env, capacity=y["cap"], init=y["init"], error_full=full, error_empty=empty)
        self.stock_ = (UP.SelfMonitoringReserveContainer if "reserve" in mon else UP.ReserveContainer)(self.env, capacity=20, init=8)
        self.sorted = (UP.SelfMonitoringSortedFilterStore if "sorted" in mon else UP.SortedFilterStore)(self.env)
        self.plain = (UP.SelfMonitoringContainer if "plain" in mon else simpy.Container)(self.env, capacity=y["cap"], init=y["init"])
        self.thing = []
        for k, d in enumerate(self.plan["side"]):
            at(self.env, self.env.now + d["t"], lambda k=k, d=d: getattr(self, "do_" + d["kind"])(k, d, self.actors[d["a"] % len(self.actors)]))

    def flow(self, k, put, rate, time):
        use = self.tube.put if put else self.tube.get
        user = use(rate, time, custom_callbacks=[lambda: self.say("flow cut", k, self.env.now, self.tube.level)])
        return user

    def do_flow(self, k, d, a):
        user = self.flow(k, d["put"], d["rate"], d["time"])
        if d["stop"]:
            at(self.env, self.env.now + d["stop"], user.cancel)

    def do_peer(self, k, d, a):
        self.say("tube", k, self.tube.level, self.tube.rate, self.tube.time_until_done(), self.tube.time_until_level(self.tube.capacity / 2))

    def do_reserve(self, k, d, a):
        r = self.stock_
        try:
            if d["put"]:
                r.put(d["rate"], capacity_increase=d["time"] > 3)
            else:
                r.reserve(k, d["rate"], d["stop"] or None)
                at(self.env, self.env.now + d["time"] / 4, lambda: self.take(k))
        except Exception as e:
            self.say("reserve", k, type(e).__name__)
        self.say("reserve", k, r.available, r.remaining, sorted(r.queued))

    def take(self, k):
        try:
            self.say("took", k, self.stock_.take(k))
        except Exception as e:
            self.say("took", k, type(e).__name__)

    def do_sorted(self, k, d, a):
        self.env.process(self.sort(k, d))

    def sort(self, k, d):
        if d["put"]:
            yield self.sorted.put((round(d["rate"] * 7) % 5, k))
        else:
            g = self.sorted.get(filter=lambda i: i[0] != 2, sorter=lambda i: (i[0], -i[1]), reverse=bool(d["stop"]))
            got = yield g | self.env.timeout(d["time"])
            self.say("sorted", k, list(got.values()))
            if not g.triggered:
                g.cancel()

    def do_share(self, k, d, a):
        """One list and one dictionary are held by several actors, and change."""
        if d["put"]:
            a.pile = self.thing
        else:
            a.ring = {"k": self.thing, "n": k}
        at(self.env, self.env.now + d["time"] / 3, lambda: self.thing.append(k))
        if d["stop"]:
            at(self.env, self.env.now + d["stop"], lambda: (a.pile.append(-k), a.ring.update({k: len(a.pile)})))
        self.say("share", k, [b.pile is self.thing for b in self.actors], [b.ring.get("k") is self.thing for b in self.actors])

    def do_plain(self, k, d, a):
        self.env.process(self.pour(k, d))

    def pour(self, k, d):
        e = (self.plain.put if d["put"] else self.plain.get)(d["rate"])
        got = yield e | self.env.timeout(d["time"])
        self.say("poured", k, e in got, self.plain.level)
        if not e.triggered:
            e.cancel()

    def named(self, kind, name):
        return kind(self.env, name=name) if "market" in self.view["mon"] else kind(self.env)

    def actor_args(self):
        return dict(debug_log=self.view["log"], debug_log_time=self.view["logtime"])

    def histories(self, what, actor, *how):
        pass

    # -- observing
    @UP.process
    def monitor(self, dt):
        data = []
        while True:
            yield self.env.timeout(dt)
            data.append([(a.mood, a.mode, len(a.bag.items), a.tank.level) for a in self.actors])
            self.looks += 1

    def due(self, p):
        p["n"] = p.get("n", p["from"]) + 1
        if p["n"] % p["every"] == 0:
            self.looks += 1
            getattr(self, "see_" + p["what"])(self.actors[p["a"] % len(self.actors)])

    def see_table(self, a):
        create_table(skip_locations=a.name[-1] in "02")
        create_location_table()

    def see_log(self, a):
        a.log("observed")
        a.get_log()
        a.log()
        repr(a), str(a), a.pretty_now

    def see_networks(self, a):
        a.get_running_tasks()
        a.get_all_task_queues()
        for n in list(a._task_networks):
            a.get_task_queue(n)
            a.get_running_task(n)
            a.has_task_network(n)
            repr(a._task_networks[n])
        if a._state_listener is not None:
            repr(a.get_nucleus())

    def see_groups(self, a):
        b = UP.UpstageBase()
        b.get_actors(), b.get_monitored(), b.get_all_entity_groups(), b.get_entity_group("all"), b.get_entity_group("none such")

    def see_data(self, a):
        record_data({"mood": a.mood}, copy=True)
        get_recorded_data()

    def see_plain(self, a):
        for s in PLAIN:
            if s not in a._mimic_states:
                getattr(a, s)
        a.states
        list(a.notes.items()), a.props.a, a.shelf, a.bag.items, a.tank.level, a.radio.items
        list(a._state_histories.values())

    def see_knowledge(self, a):
        for n in ("k0", "k1", "none such"):
            a.get_knowledge(n)
        a.get_bulk_knowledge(["k0", "k1"])

    def see_record(self, a):
        for s in PLAIN:
            if s in self.view["record"] and s not in a._mimic_states:
                a.record_state(s)

    def see_clock(self, a):
        self.env.peek()
        a.pretty_now, a.stage.get("nothing"), UP.get_stage()

    def see_managers(self, a):
        list(self.router.debug_log), list(self.direct.debug_log)
        repr(self.manager), repr(self.router)

    # -- what must not change
    def outcome(self):
        out = self.lines
        b = UP.UpstageBase()
        for a in b.get_actors():
            out.append(f"actor {a.name}")
            for s in a.states:
                v = getattr(a, s) if s in a.__dict__ or s in a._mimic_states else "never set"
                if s in ("bag", "radio"):
                    v = [getattr(getattr(x, "content", x), "data", x) for x in v.items], len(v.put_queue), len(v.get_queue)
                elif s == "tank":
                    v = v.level, len(v.put_queue), len(v.get_queue)
                elif s == "shelf":
                    v = {k: (x.items, len(x.put_queue), len(x.get_queue)) for k, x in v.items()}
                elif s == "notes":
                    v = dict(v.items())
                elif s == "props":
                    v = (v.a, v.b, v.c)
                elif s == "loc":
                    v = [text(x) for x in (v.x, v.y, v.z)]
                out.append(f"  {s}: {text(v)}")
            out.append(f"  knows {[(k, v) for k, v in a._knowledge.items() if not isinstance(v, UP.Event)]}")
            out.append(f"  active {list(a._active_states)} mimic {list(a._mimic_states)}")
            out.append(f"  doing {[(k, v.name) for k, v in a.get_running_tasks().items()]} next {a.get_all_task_queues()}")
        out.append(f"yard {self.tube.level} {self.tube.rate} {self.stock_.available} {self.stock_.remaining} {self.sorted.items} {self.plain.level} {self.thing}")
        for s in (self.market, self.filters):
            out.append(f"store {s.items} {len(s.put_queue)} {len(s.get_queue)}")
        out.append(str({g: [x.name for x in who] for g, who in b.get_all_entity_groups().items()}))
        out.append(f"stage {sorted(b.stage.keys())}")
        out.append(f"end {float(self.env.now)} {self.rng.random()}")
        return out


def gen(rng, tier):
    plan = c23.gen(rng, tier)
    plan.pop("variants"), plan.pop("debug")

    def some(names):
        return list(names) if rng.random() < 0.35 else rng.sample(names, rng.randint(0, len(names)))

    def view():
        v = dict(NOTHING)
        if rng.random() < 0.7:
            v["record"], v["dup"], v["funcs"] = some(STATES), some(STATES), some(STATES)
        if rng.random() < 0.6:
            v["mon"] = some(["bag", "tank", "shelf", "market", "tube", "reserve", "sorted", "plain"])
        v["log"], v["debug"], v["logtime"] = rng.random() < 0.5, rng.random() < 0.5, rng.choice([None, True, False])
        v["tick"] = rng.choice([None, 0.1, 0.5, 0.25])
        v["probes"] = [dict(what=rng.choice(["table", "log", "networks", "groups", "data", "plain", "knowledge", "record", "clock", "managers"]), when=rng.choice(["step", "instant"]),
                            every=rng.choice([1, 2, 5, 13]), a=rng.randint(0, 4), **{"from": rng.randint(0, 4)}) for _ in range(rng.choice([0, 1, 2, 5]))]
        return v
    def num(top):
        return rng.choice([rng.randint(1, top), rng.randint(1, 4 * top) / 4, rng.uniform(0.05, top), rng.choice([1e-7, 3e-4]) * rng.randint(1, 9)])

    plan["yard"] = dict(cap=rng.choice([10, 10.0, 25.5]), init=rng.choice([0, 0, 5, num(9)]), errors=[rng.random() < 0.05, rng.random() < 0.05])
    plan["side"] = [dict(kind=rng.choice(["flow", "flow", "flow", "peer", "reserve", "sorted", "share", "share", "plain"]), t=rng.choice([0, 1, rng.randint(0, 16) / 4, rng.uniform(0, 5)]), a=rng.randrange(4), put=rng.random() < 0.6,
                         rate=num(6), time=rng.choice([1, 2.5, rng.uniform(0.1, 6), 100]), stop=rng.choice([0, 0, 0.5, rng.uniform(0.1, 3)])) for _ in range(rng.choice([0, 2, 4, 8]))]
    plan["views"] = [view() for _ in range(rng.choice([1, 1, 2]))]
    plan["base"] = view() if rng.random() < 0.2 else dict(NOTHING)
    return plan


def once(plan, ctx, view):
    view = dict(view, probes=[dict(p) for p in view["probes"]])
    with ctx.context(initial_time=plan["t0"], random_seed=plan["seed"]) as env:
        lines, looks = [], 0
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                w = World(plan, env, view)
                lines = w.lines
                end = plan["t0"] + plan["horizon"]
                at(env, end, lambda: None)      # nothing ends before the horizon
                env.run(until=end)
                looks = w.looks
                env._hooks.clear(), env._step_hooks.clear()
                lines = w.outcome()
        except Exception as e:  # part of what happens
            ctx.cover("error " + type(e).__name__)
            lines.append(f"error {type(e).__name__} {str(e)[:80]}")
        return lines, looks


def run(plan, ctx):
    ref, _ = once(plan, ctx, plan["base"])
    for line in ref:
        ctx.log(line)
        ctx.note_event(0, line.split(",")[1][:12] if line.startswith("(") else line[:6])
    seen = 0
    for view in plan["views"]:
        got, looks = once(plan, ctx, view)
        seen += looks + len(view["record"]) + len(view["mon"]) + view["log"] + view["debug"]
        for key in ("record", "dup", "funcs", "mon", "log", "debug", "tick"):
            if view[key]:
                ctx.fault(key)
        for p in view["probes"]:
            ctx.fault("look-" + p["what"])
        for i, (x, y) in enumerate(zip(ref, got)):
            ctx.check(x == y, "changed", lambda: f"observed by {view}: line {i} is\n  {y[:500]}\ninstead of\n  {x[:500]}")
        ctx.check(len(ref) == len(got), "changed", lambda: f"observed by {view}: {len(got)} lines instead of {len(ref)}: {(ref + got)[-1]}")
    ctx.nontrivial = len(ref) > 25 and seen > 0
