"""C23: one seed and one model give one identical history."""
import atexit
import gc
import hashlib
import json
import os
import random
import subprocess
import sys
import threading
import uuid
from contextlib import contextmanager
from dataclasses import dataclass

import simpy
import upstage_des.api as UP
import upstage_des.communications.comms as comms_module
from upstage_des.base import clear_top_context, create_top_context
from upstage_des.data_utils import create_location_table, create_table
from upstage_des.state_sharing import SharedLinearChangingState
from upstage_des.motion.cartesian_model import cartesian_linear_intersection

from dst.core import at

ID = "C23"
RUNS = {"quick": 1500, "thorough": 60000}
SHRINK = ["acts", "actors", "nets", "sensors", "links", "faults", "variants", "slices"]
RULE = ("a generated model (task networks and nuclei, states active and mimicked under interrupts, default factories and "
        "recording functions that draw, stores, containers, motion managers with several sensors, routed and direct "
        "communication over equally long routes, knowledge, groups, clones and rehearsals, all drawing from the stage's "
        "generator) runs once as reference and then again under variations: in another process with another hash seed, with "
        "other object addresses (hash seam), other message ids, another global generator, cut into partial runs or single "
        "steps, after other simulations with the same classes, with collections of garbage in between, in a top context. "
        "Every line of the complete history must be the same. Non-trivial: over 40 lines and two variations.")
REAL = ["all of upstage_des that takes part in simulations; simpy; CPython's string hashing (other processes)"]
STUB = ["default object hashes (addresses) and uuid4 come from the simulator"]
ASSUME = ["the unique ids of messages are not part of the history",
          "a stepped motion manager's own end (nothing left to simulate) is not part of it: a partial run's end is an event to it",
          "what the model itself does is a function of the stage's generator and the simulation"]

ERRORS = []
NAMES = ["alpha", "bravo", "nav", "fire", "x", "scan", "q7", "zulu"]


def text(v):
    return round(v, 9) if isinstance(v, float) else v


class Rec:
    """A recording class, whose draws show the order in which states record."""

    def __init__(self):
        self.n = 0

    def __call__(self, time, value):
        self.n += 1
        return (self.n, UP.UpstageBase().stage.random.randint(0, 999))


def rec_fun(time, value):
    return UP.UpstageBase().stage.random.randint(0, 999)


def draw():
    return UP.UpstageBase().stage.random.randint(0, 10**6)


@dataclass
class Props:
    a: int = 0
    b: int = 0
    c: int = 0


class Zoo(UP.Actor, entity_groups=["animals", "all", "moving", "b2"]):
    fuel = UP.LinearChangingState(recording=True, default=100.0, recording_functions=[(rec_fun, "fuel_draw")])
    heat = UP.LinearChangingState(recording=True, default=0.0, recording_functions=[(Rec, "heat_draw")])
    oil = UP.LinearChangingState(recording=True, default=7.0, record_duplicates=True)
    water = UP.LinearChangingState(recording=True, default_factory=lambda: float(draw() % 97), recording_functions=[(rec_fun, "water_draw")])
    power = SharedLinearChangingState(recording=True, default=10.0)
    loc = UP.CartesianLocationChangingState(recording=True)
    seen = UP.DetectabilityState(default=True, recording=True)
    luck = UP.State(default_factory=draw, recording=True)
    charm = UP.State(default_factory=draw, recording=True)
    skill = UP.State(default_factory=draw, recording=True)
    wit = UP.State(default_factory=draw, recording=True, no_init=True)
    mood = UP.State(default=0, recording=True)
    mode = UP.State(default="idle", recording=True)
    echo = UP.State(default=0, recording=True, recording_functions=[(rec_fun, "echo_draw")])
    echo2 = UP.State(default=0, recording=True, recording_functions=[(Rec, "echo2_draw")])
    bag = UP.ResourceState(default=UP.SelfMonitoringStore)
    tank = UP.ResourceState(default=UP.SelfMonitoringContainer, default_kwargs={"capacity": 50, "init": 20})
    radio = UP.CommunicationStore(modes=["uhf", "vhf"])
    shelf = UP.MultiStoreState(default=UP.SelfMonitoringStore)
    notes = UP.DictionaryState(recording=True)
    props = UP.DataclassState(recording=True)

    def entity_entered_range(self, e):
        self.zoo.say("entered", self.name, e.name, self.stage.random.randint(0, 99))

    def entity_exited_range(self, e):
        self.zoo.say("exited", self.name, e.name, self.stage.random.randint(0, 99))
        if isinstance(self, Lion):
            self.zoo.soon(lambda: setattr(self, "mood", self.mood + 1))


class Lion(Zoo, entity_groups=["cats", "predators"]):
    roar = UP.State(default_factory=draw, recording=True)


class Post:
    """A sensor that is no actor."""

    def __init__(self, zoo, name, spot, reach):
        self.zoo, self.name, self.spot, self.reach = zoo, name, spot, reach

    def entity_entered_range(self, e):
        self.zoo.say("entered", self.name, e.name, UP.UpstageBase().stage.random.randint(0, 99))

    def entity_exited_range(self, e):
        self.zoo.say("exited", self.name, e.name, UP.UpstageBase().stage.random.randint(0, 99))


class Tag(UP.NamedUpstageEntity, entity_groups=["tags", "labels", "all"]):
    def __init__(self, name):
        self.name = name
        super().__init__()


# -- what the actors do

class Roam(UP.Task):
    """Changes several states at once, for a random while."""

    def task(self, *, actor):
        z, p = self.zoo, self.p
        z.say("roam", actor.name, self.tag)
        for s, rate in p["lin"]:
            actor.activate_linear_state(state=s, rate=rate, task=self)
        actor.activate_state(state="power", rate=p["speed"] / 3, task=self)
        if p["path"]:
            actor.activate_location_state(state="loc", speed=p["speed"], waypoints=[UP.CartesianLocation(x, y) for x, y in p["path"]], task=self)
        for s, j, o in p["mimic"]:
            if z.actors[j] is not actor and s not in actor._mimic_states:
                actor.activate_mimic_state(self_state=s, mimic_state=o, mimic_actor=z.actors[j], task=self)
        top = z.wait(p["wait"])
        if p["path"]:
            # no further than the path goes
            legs = [actor.loc] + [UP.CartesianLocation(x, y) for x, y in p["path"]]
            top = UP.Wait(min(z.rng.uniform(0, p["wait"]), sum(u - v for u, v in zip(legs, legs[1:])) / p["speed"]))
        yield top
        if p["off"] == "all":
            actor.deactivate_all_states(task=self)
            actor.deactivate_all_mimic_states(task=self)
            z.say("off", actor.name)
            return
        if p["path"]:
            actor.deactivate_state(state="loc", task=self)      # the others stay active for good
        if p["off"] == "wait":
            yield z.wait(1)

    def on_interrupt(self, *, actor, cause):
        self.zoo.say("roam cut", actor.name, self.tag, str(cause), draw())
        return {"end": self.INTERRUPT.END, "ignore": self.INTERRUPT.IGNORE, "restart": self.INTERRUPT.RESTART}[self.p["cut"]]


class Watch(UP.Task):
    """Waits to be told of changes."""

    def task(self, *, actor):
        p = self.zoo.nets[self._network_name]
        yield UP.Any(self.zoo.wait(p["wait"]), UP.Event(), UP.Wait(5.0))

    def on_interrupt(self, *, actor, cause):
        z = self.zoo
        z.say("told", actor.name, self._network_name, str(cause), draw())
        p = z.nets[self._network_name]
        how = p["react"]
        if how == "set" and actor.mood < 12:
            z.say("mood", actor.mood)
        return self.INTERRUPT.RESTART if how == "restart" else self.INTERRUPT.END if how == "end" else self.INTERRUPT.IGNORE


class Pick(UP.DecisionTask):
    def make_decision(self, *, actor):
        q = [actor.stage.random.choice(self.zoo.nets[self._network_name]["tasks"]) for _ in range(2)]
        self.zoo.say("pick", actor.name, q)
        actor.set_task_queue(self._network_name, q)


class Work(UP.Task):
    def task(self, *, actor):
        z = self.zoo
        yield z.wait(1)
        actor.mood = actor.mood + 1
        actor.notes[actor.stage.random.choice("abcdef")] = actor.mood
        z.say("work", actor.name, actor.mood)

    def on_interrupt(self, *, actor, cause):
        self.zoo.say("work cut", actor.name, str(cause), draw())
        return self.INTERRUPT.RESTART


class Trade(UP.Task):
    def task(self, *, actor):
        z, p = self.zoo, self.p
        for k in range(p["n"]):
            what = actor.stage.random.choice(p["kinds"])
            if what == "put":
                yield UP.Put(z.market, (actor.name, k))
            elif what == "get":
                g = UP.Get(z.market)
                any_ = UP.Any(g, z.wait(1))
                yield any_
                z.say("got", actor.name, g.get_value() if g.is_complete() else None)
                if not g.is_complete():
                    g.cancel()
            elif what == "filter":
                g = UP.FilterGet(z.filters, lambda i: i % 3 == k % 3)
                t = z.wait(2)
                yield UP.Any(t, g)
                z.say("filtered", actor.name, g.get_value() if g.is_complete() else None)
                if not g.is_complete():
                    g.cancel()
            elif what == "fput":
                yield UP.Put(z.filters, actor.stage.random.randint(0, 30))
            elif what == "fill":
                yield UP.Put(actor.tank, 1)
            elif what == "drain":
                yield UP.Get(actor.tank, 1)
            elif what == "res":
                r = UP.ResourceHold(z.pumps)
                yield r
                yield z.wait(1)
                yield r
                z.say("pumped", actor.name)
            elif what == "shelf":
                yield UP.Put(actor.shelf["p"], k)
                actor.props.a = k
            elif what == "know":
                actor.set_knowledge(f"k{k % 3}", draw(), overwrite=True)
            elif what == "all":
                yield UP.All(z.wait(1), UP.Any(z.wait(1), z.wait(1)))
            z.say("traded", actor.name, what, self.env.now)

    def on_interrupt(self, *, actor, cause):
        self.zoo.say("trade cut", actor.name, str(cause))
        return self.INTERRUPT.IGNORE


class Listen(UP.Task):
    def task(self, *, actor):
        for _ in range(30):
            g = UP.Get(actor.radio)
            yield g
            m = g.get_value()
            self.zoo.say("heard", actor.name, m.sender.name, m.content.data, m.time_created, m.time_sent, draw())


class Meet(UP.Task):
    """Waits, with others, for one event or for knowledge."""

    def task(self, *, actor):
        z, p = self.zoo, self.p
        ev = z.gong if p["gong"] else actor.create_knowledge_event(name=f"meet{self.tag}")
        yield UP.Any(ev, z.wait(p["wait"]))
        z.say("met", actor.name, ev.is_complete(), draw())
        if not p["gong"] and f"meet{self.tag}" in actor._knowledge:
            actor.clear_knowledge(f"meet{self.tag}")

    def on_interrupt(self, *, actor, cause):
        return self.INTERRUPT.END


class Plan(UP.Task):
    """Part of what is rehearsed."""

    def task(self, *, actor):
        actor.activate_linear_state(state="fuel", rate=-1.0, task=self)
        actor.activate_linear_state(state="heat", rate=2.0, task=self)
        yield UP.Wait(1.5)
        actor.deactivate_all_states(task=self)
        yield UP.Get(actor.bag, rehearsal_time_to_complete=2.0)
        actor.mood += 1


# -- generation

def gen(rng, tier):
    big = tier == "thorough" and rng.random() < 0.4
    n = rng.randint(1, 5 if big else 4)
    actors = [dict(cls=rng.choice(["Zoo", "Lion"]), at=[rng.randint(-6, 6), rng.randint(-6, 6)], reach=rng.choice([2, 3, 5]),
                   given=sorted(rng.sample(["luck", "charm", "skill", "mood"], rng.randint(0, 2)))) for _ in range(n)]
    nets = []
    for name in rng.sample(NAMES, rng.randint(0, 4)):
        kind = rng.choice(["watch", "watch", "work", "pick"])
        nets.append(dict(name=name, a=rng.randrange(n), watch=rng.sample(["mode", "fuel", "heat", "power", "oil", "water", "echo", "echo2", "seen"] + ["mood", "mood"] * (kind == "watch"), rng.randint(0, 4)), kind=kind, wait=rng.choice([1, 2]), react=rng.choice(["ignore", "restart", "end", "set"]), tasks=["work", "rest", "watch"]))
    acts = []
    for _ in range(rng.randint(2, 10 if big else 7)):
        a = dict(t=rng.choice([0, 0, 0, 1, 2, 2.5]), a=rng.randrange(n))
        a["kind"] = k = rng.choice(["roam"] * 4 + ["trade"] * 2 + ["meet", "meet", "talk", "talk", "clone", "plan", "groups", "create", "bump", "bump"])
        if k == "roam":
            a["lin"] = [[s, rng.choice([1.0, -0.5, 2.5])] for s in rng.sample(["fuel", "heat", "oil", "water"], rng.randint(1, 4))]
            a["mimic"] = [[s, rng.randrange(n), rng.choice(["luck", "mood", "skill", "charm"])] for s in rng.sample(["echo", "echo2"], rng.randint(0, 2))]
            a["path"] = [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else []
            a["speed"] = rng.choice([1.0, 3.0])
            a["wait"] = rng.choice([1, 2, 4])
            if a["path"] and rng.random() < 0.3:    # there, somewhere near and back there
                x, y = a["path"][0]
                a["path"] = [[x, y], [x + rng.choice([-3, 2]), y + rng.randint(-3, 3)], [x, y]]
                a["speed"], a["wait"] = rng.choice([3.0, 5.0]), 6
            a["off"] = rng.choice(["all", "end", "end", "wait"])
            a["cut"] = rng.choice(["end", "end", "ignore", "restart"])
        elif k == "trade":
            a["n"] = rng.randint(1, 6)
            a["kinds"] = rng.sample(["put", "get", "filter", "fput", "fill", "drain", "res", "shelf", "know", "all"], rng.randint(2, 6))
        elif k == "meet":
            a["gong"] = rng.random() < 0.6
            a["wait"] = rng.choice([1, 3])
        elif k == "talk":
            a["b"] = rng.randrange(n)
            a["n"] = rng.randint(1, 4)
            a["p2p"] = rng.random() < 0.2
        elif k == "bump":
            a["s"] = rng.choice(["mood", "mode", "luck", "skill"])
            a["n"] = rng.randint(1, 5)
        acts.append(a)
    faults = []
    for _ in range(rng.randint(0, 8)):
        faults.append(dict(t=rng.choice([0, 0.5, 1, 1.5, 2, 3, 4]) + rng.choice([0, 0, 0.21]), kind=rng.choice(["interrupt", "interrupt", "hide", "hide", "block", "unblock", "degrade", "gong", "know", "resensor", "endall"]),
                           a=rng.randrange(n), b=rng.randrange(n)))
    links = []
    if rng.random() < 0.6:
        if rng.random() < 0.7:      # equally long ways through the four relays
            for k in rng.sample(range(4), rng.randint(2, 4)):
                links += [[n + k, x] for x in rng.sample(range(n), min(n, rng.randint(2, 3)))]
            rng.shuffle(links)
        for _ in range(rng.randint(0, 6)):
            links.append([rng.randrange(n + 4), rng.randrange(n + 4)])
    sensors = [dict(at=[rng.randint(-6, 6), rng.randint(-6, 6)], r=rng.choice([2, 4, 6])) for _ in range(rng.randint(0, 5))]
    if rng.random() < 0.4:      # many sensors that have the same movers in view
        sensors = [dict(at=[rng.randint(-2, 2), rng.randint(-2, 2)], r=rng.choice([6, 9])) for _ in range(rng.randint(3, 5))]
    variants = []
    for _ in range(rng.randint(2, 4)):
        variants.append(dict(proc=rng.choice([None, None, 1, 2, 3]), salt=rng.choice([0, rng.randint(1, 10**6), rng.randint(1, 10**6)]),
                             g=rng.randint(0, 10**6), before=rng.choice([0, 0, 0, 1, 2, 3]), drive=rng.choice(["until", "until", "slices", "slices", "step", "hold"]),
                             slices=sorted(round(rng.choice([rng.uniform(0, 8), rng.choice([0.5, 1, 1.5, 2, 3, 4])]), 3) for _ in range(rng.randint(1, 6))),
                             abort=rng.random() < 0.3, around=rng.random() < 0.1, thread=rng.random() < 0.1, gc=rng.random() < 0.15, top=rng.random() < 0.15, gen=rng.random() < 0.2))
    return dict(seed=rng.choice([0, 1, -5, rng.randint(2, 10**9), rng.randint(2, 10**9)]), actors=actors, nets=nets, acts=acts, faults=faults, links=links, sensors=sensors,
                manager=rng.choice(["sensor", "sensor", "sensor", "stepped", None]), ignore=rng.random() < 0.3, horizon=rng.choice([4, 6, 9]), debug=rng.random() < 0.8,
                t0=rng.choice([0, 0, 0, 5.0]), variants=variants)


# -- the model

class World:
    zoo, lion = Zoo, Lion
    debug = True
    market_kind, filter_kind = UP.SelfMonitoringStore, UP.SelfMonitoringFilterStore

    def __init__(self, plan, env):
        self.plan, self.env = plan, env
        self.lines = []
        self.running = []
        self.rng = UP.UpstageBase().stage.random
        self.nets = {d["name"]: d for d in plan["nets"]}
        self.stock()
        self.people()
        self.motion()
        self.radio()
        self.networks()
        for k, a in enumerate(plan["acts"]):
            at(env, env.now + a["t"], lambda k=k, a=a: self.start(k, a))
        for f in plan["faults"]:
            at(env, env.now + f["t"], lambda f=f: self.fault(f))

    def say(self, *what):
        self.lines.append(repr((text(self.env.now),) + tuple(map(text, what))))

    def histories(self, what, actor, *how):
        self.say(what, actor.name, *how)

    def soon(self, fn):
        at(self.env, self.env.now, fn, depth=1)

    def wait(self, top):
        return UP.Wait.from_random_uniform(0.0, float(top)) if self.rng.random() < 0.6 else UP.Wait(self.rng.randint(0, 2 * top) / 2)

    # -- setting up
    def stock(self):
        self.market = self.named(self.market_kind, "market")
        self.filters = self.named(self.filter_kind, "filters")
        self.pumps = simpy.Resource(self.env, capacity=1)
        self.gong = UP.Event()

    def named(self, kind, name):
        return kind(self.env, name=name)

    def actor_args(self):
        return {}

    def people(self):
        self.actors = []
        for k, d in enumerate(self.plan["actors"]):
            cls = {"Zoo": self.zoo, "Lion": self.lion}[d["cls"]]
            a = cls(name=f"{d['cls']}{k}", loc=UP.CartesianLocation(*d["at"]), shelf=["p", "q"], notes={"a": 1}, props=Props(), radio={"modes": ["uhf", "vhf"]},
                    **{s: k for s in d["given"]}, **self.actor_args())
            a.zoo = self
            a.reach = d["reach"]
            self.actors.append(a)
        self.tags = [Tag(f"tag{k}") for k in range(2)]
        for a in self.actors:
            self.task(Listen, a, {}, "listen")

    def motion(self):
        self.manager = None
        if self.plan["manager"] == "sensor":
            self.manager = UP.SensorMotionManager(cartesian_linear_intersection, debug=self.debug)
        elif self.plan["manager"]:
            self.manager = UP.SteppedMotionManager(timestep=0.5, debug=self.debug)
        if self.manager is None:
            return
        UP.add_stage_variable("motion_manager", self.manager)
        for k, s in enumerate(self.plan["sensors"]):
            self.manager.add_sensor(Post(self, f"post{k}", UP.CartesianLocation(*s["at"]), s["r"]), location_attr_name="spot", radius_attr_name="reach")
        if self.plan["manager"] == "stepped":
            for a in self.actors:
                self.manager.add_sensor(a, location_attr_name="loc", radius_attr_name="reach")
        else:
            for k, d in enumerate(self.plan["actors"]):
                if d["reach"] == 5:
                    # an actor that stands still most of the time
                    self.actors[k].spot = UP.CartesianLocation(*d["at"])
                    self.manager.add_sensor(self.actors[k], location_attr_name="spot", radius_attr_name="reach")

    def radio(self):
        self.router = UP.RoutingTableCommsManager(name="router", mode="uhf", send_time=0.25, retry_max_time=0.5, retry_rate=0.25, global_ignore=self.plan["ignore"], debug_logging=self.debug)
        self.direct = UP.PointToPointCommsManager(name="direct", mode="vhf", send_time=0.1, retry_max_time=0.5, retry_rate=0.25, debug_logging=self.debug)
        self.nodes = list(self.actors)
        if self.plan["links"]:
            for k in range(4):
                a = self.zoo(name=NAMES[k], loc=UP.CartesianLocation(90 + k, 90), shelf=[], notes={}, props=Props(), radio={"modes": ["uhf"]}, **self.actor_args())
                a.zoo = self
                a.reach = 0
                self.nodes.append(a)
        for u, v in self.plan["links"]:
            u, v = u % len(self.nodes), v % len(self.nodes)
            if u != v:
                self.router.connect_nodes(self.nodes[u], self.nodes[v], two_way=True)
        self.router.run()
        self.direct.run()

    def networks(self):
        bound = {n: type(n, (c,), {"zoo": self}) for n, c in (("Watch", Watch), ("Work", Work), ("Pick", Pick))}
        for d in self.plan["nets"]:
            a = self.actors[d["a"]]
            if d["kind"] == "pick":
                tasks = {"pick": bound["Pick"], "work": bound["Work"], "watch": bound["Watch"], "rest": bound["Work"]}
                links = {n: UP.TaskLinks(default=None if n == "pick" else "pick", allowed=["work", "watch", "rest"] if n == "pick" else ["pick", "work", "watch", "rest"]) for n in tasks}
                f = UP.TaskNetworkFactory(name=d["name"], task_classes=tasks, task_links=links)
            else:
                f = UP.TaskNetworkFactory.from_single_looping(d["name"], bound["Watch" if d["kind"] == "watch" else "Work"])
            a.add_task_network(f.make_network())
            if d["watch"]:
                nuc = a._state_listener or UP.TaskNetworkNucleus(actor=a)
                nuc.add_network(d["name"], d["watch"])
        for d in self.plan["nets"]:
            a = self.actors[d["a"]]
            a.start_network_loop(d["name"], {"pick": "pick", "watch": "Watch", "work": "Work"}[d["kind"]])

    # -- doing
    def task(self, cls, actor, p, tag):
        t = cls()
        t.zoo, t.p, t.tag = self, p, tag
        proc = t.run(actor=actor)
        self.running.append((actor, proc, cls.__name__))
        return proc

    def start(self, k, d):
        a, kind = self.actors[d["a"]], d["kind"]
        self.say("start", kind, a.name)
        if kind == "roam":
            if any(s in a._active_states for s, _ in d["lin"]) or (d["path"] and "loc" in a._active_states):
                return
            self.task(Roam, a, d, k)
        elif kind == "trade":
            self.task(Trade, a, d, k)
        elif kind == "meet":
            self.task(Meet, a, d, k)
        elif kind == "talk":
            self.talk(a, self.nodes[d["b"]], d)
        elif kind == "clone":
            c = a.clone(f"{a.name} copy {k}") if self.rng.random() < 0.5 else a.clone()
            self.say("clone", c.name, sorted((n, text(getattr(c, n))) for n in ("fuel", "heat", "water", "luck", "wit", "mood")), list(c._state_defs))
            self.histories("clone states", c, list(c._state_histories), [type(x).__name__ for x in c._active_states])
        elif kind == "plan":
            t = type("Planning", (Plan,), {})
            f = UP.TaskNetworkFactory.from_single_looping(f"plan{k}", t)
            a.add_task_network(f.make_network())
            c = a.rehearse_network(f"plan{k}", ["Planning", "Planning"])
            self.say("rehearsed", text(c.env.now), [text(c.fuel), text(c.heat)])
            self.histories("rehearsal's", c, {n: [(text(t), str(v)) for t, v in h] for n, h in c._state_histories.items() if n in ("fuel", "heat", "mood", "fuel_draw", "heat_draw")})
        elif kind == "groups":
            b = UP.UpstageBase()
            for g in b.get_all_entity_groups():
                who = b.get_entity_group(g)
                self.say("group", g, [x.name for x in who], self.rng.choice(who).name if who else None)
            self.say("actors", [x.name for x in b.get_actors()], draw())
        elif kind == "create":
            x = self.lion(name=f"cub{k}", loc=UP.CartesianLocation(0, 0), shelf=["r", "s"], notes={}, props=Props(), **self.actor_args())
            x.zoo = self
            self.say("created", x.name, [getattr(x, s) for s in ("luck", "charm", "skill", "wit", "roar", "water")])
        elif kind == "bump":
            self.bump(a, d)

    @UP.process
    def bump(self, a, d):
        for _ in range(d["n"]):
            yield self.env.timeout(self.rng.randint(0, 4) / 2)
            v = self.rng.randint(0, 9)
            setattr(a, d["s"], v if d["s"] != "mode" else self.rng.choice(["idle", "busy"]))
            self.say("bumped", a.name, d["s"])

    @UP.process
    def talk(self, a, b, d):
        mgr = self.direct if d["p2p"] or not self.plan["links"] else self.router
        if mgr is self.direct and b not in self.actors:
            return
        for k in range(d["n"]):
            yield self.env.timeout(self.rng.randint(0, 2) / 2)
            yield mgr.make_put({"n": k}, a, b).as_event()
            self.say("said", a.name, b.name, k)

    def fault(self, f):
        a, b, kind = self.actors[f["a"]], self.actors[f["b"]], f["kind"]
        self.say("fault", kind, a.name)
        if kind == "interrupt":
            for actor, proc, name in self.running:
                if actor is a and proc.is_alive and name != "Listen":
                    proc.interrupt(cause=f"because {f['b']}")
        elif kind == "hide":
            a.seen = not a.seen
        elif kind == "block":
            self.router.blocked_nodes.append(self.nodes[-1 - f["b"] % len(self.nodes)])
            self.router.blocked_links.append((a, b))
        elif kind == "unblock":
            self.router.blocked_nodes.clear()
            self.router.blocked_links.clear()
        elif kind == "degrade":
            self.router.comms_degraded = not self.router.comms_degraded
            self.direct.comms_degraded = not self.direct.comms_degraded
        elif kind == "gong":
            try:
                self.gong.succeed()
            except UP.SimulationError:
                self.say("rung before")
        elif kind == "know":
            for name, v in list(a._knowledge.items()):
                if name.startswith("meet"):
                    a.succeed_knowledge_event(name=name)
        elif kind == "resensor" and self.manager is not None:
            self.manager.add_sensor(Post(self, f"late{f['t']}", UP.CartesianLocation(f["a"], f["b"]), 3), location_attr_name="spot", radius_attr_name="reach")
        elif kind == "endall":
            for actor, proc, name in self.running:
                if proc.is_alive and name == "Roam":
                    proc.interrupt(cause="all")

    # -- the history
    def history(self):
        out = self.lines
        b = UP.UpstageBase()
        for a in b.get_actors():
            out.append(f"actor {a.name}")
            for n, h in a._state_histories.items():
                out.append(f"  {n}: {[(text(t), str(v)) for t, v in h]}")
            out += [f"  log {t} {m}" for t, m in a._debug_log]
            out.append(f"  know {[(k, v) for k, v in a._knowledge.items() if not isinstance(v, UP.Event)]}")
            out.append(f"  active {list(a._active_states)} mimic {list(a._mimic_states)}")
            for store in (a.bag, a.tank, *a.shelf.values()):
                out.append(f"  amounts {store._quantities}")
        for s in (self.market, self.filters):
            out.append(f"{s.name} {s._quantities} {s.items}")
        for m in (self.router, self.direct):
            out += [f"{m.name} {x['time']} {x['event']} {x['message'].content.data} {x['current'].name} {x['destination'].name}" for x in m.debug_log]
        if self.manager is not None:
            for x in self.manager._debug_log:
                if isinstance(x, dict):
                    out.append("motion " + str({k: getattr(v, "name", text(v) if not isinstance(v, list) else str(v)) for k, v in x.items()}))
                else:
                    out.append(f"motion {x[0]} {x[1].name} {x[2]} {x[3].name} {x[4]}")
        t, cols = create_table()
        out.append(str(cols))
        out += map(str, t)
        t, cols = create_location_table()
        out += map(str, t)
        out.append(str({g: [x.name for x in who] for g, who in b.get_all_entity_groups().items()}))
        out.append(f"end {float(self.env.now)} {self.rng.random()}")
        return out


# -- the seams

@contextmanager
def seams(salt, g):
    """Object hashes by serial number and salt instead of address; message ids from a seed."""
    state = [0]

    def h(self):
        d = self.__dict__
        v = d.get("_dst_hash")
        if v is None:
            state[0] += 1
            v = state[0] if not salt else int.from_bytes(hashlib.blake2b(f"{salt}/{state[0]}".encode(), digest_size=7).digest(), "big")
            d["_dst_hash"] = v
        return v

    classes = [UP.UpstageBase, simpy.Event, simpy.resources.base.BaseResource, Post]
    ids = random.Random(g)
    old_uuid = comms_module.uuid4
    before = random.getstate()
    random.seed(g)
    mark = random.getstate()
    for c in classes:
        c.__hash__ = h
    comms_module.uuid4 = lambda: uuid.UUID(int=ids.getrandbits(128))
    try:
        yield lambda: random.getstate() == mark
    finally:
        for c in classes:
            del c.__hash__
        comms_module.uuid4 = old_uuid
        random.setstate(before)


class Abort(Exception):
    pass


def run_model(plan, v, abort=False):
    kw = dict(initial_time=plan["t0"])
    kw.update(dict(random_gen=random.Random(plan["seed"])) if v["gen"] else dict(random_seed=plan["seed"]))
    ctx = create_top_context(**kw) if v["top"] else UP.EnvironmentContext(**kw)
    env = UP.UpstageBase().env if v["top"] else ctx.__enter__()
    lines = []
    try:
        try:
            w = World(plan, env)
            lines = w.lines
            if abort:
                def stop():
                    raise Abort
                at(env, env.now + 1.5, stop)
            drive(env, plan["t0"] + plan["horizon"], v, plan["t0"])
            lines = w.history()
        except Exception as e:  # part of the history
            lines.append(f"error {type(e).__name__}")
            ERRORS.append(str(e))
        return lines
    finally:
        if v["top"]:
            clear_top_context(ctx)
        else:
            ctx.__exit__(None, None, None)


def drive(env, end, v, t0):
    stop = env.timeout(end - t0)    # nothing ends before the horizon
    how = v["drive"]
    if how == "slices":
        for s in v["slices"]:
            if t0 + s > env.now and t0 + s < end:
                env.run(until=t0 + s)
                if v["gc"]:
                    gc.collect()
    elif how == "step":
        while not stop.processed and env.peek() < end:
            env.step()
    elif how == "hold":
        for s in v["slices"]:
            if t0 + s > env.now and t0 + s < end:
                env.run(until=t0 + s)
                env.peek()
                UP.UpstageBase().get_actors()
    env.run(until=end)


def simulate(plan, v):
    """One complete simulation under a variation; its history."""
    with seams(v["salt"], v["g"]) as untouched:
        if v["gc"]:
            gc.collect()
        for k in range(v["before"]):
            p = dict(plan, seed=plan["seed"] + 1 + k, horizon=3) if k != 1 else dict(plan, acts=plan["acts"][::-1], nets=[], horizon=2)
            run_model(p, dict(v, drive="until", top=False), abort=v["abort"])
        box = []
        if v["thread"]:
            t = threading.Thread(target=lambda: box.append(run_model(plan, v)))
            t.start()
            t.join()
        elif v["around"]:
            # another simulation is under way in the context around this one
            with UP.EnvironmentContext(random_seed=77) as env:
                World(dict(plan, seed=77), env)
                try:
                    env.run(until=1.25)
                except Exception:
                    pass
                box.append(run_model(plan, v))
                try:
                    env.run(until=2.5)
                except Exception:
                    pass
        else:
            box.append(run_model(plan, v))
        lines = box[0]
        if not untouched():
            lines.append("the global generator was used")
    return lines


# -- other processes

_helpers = {}


class Helper:
    def __init__(self, k):
        env = dict(os.environ, PYTHONHASHSEED=str(7000 + 13 * k))
        self.p = subprocess.Popen([sys.executable, "-m", "dst.props.c23"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

    def ask(self, plan, v):
        self.p.stdin.write(json.dumps([plan, v]) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("helper process ended")
        return json.loads(line)

    def close(self):
        self.p.kill()
        self.p.wait()


def remote(k, plan, v):
    h = _helpers.get(k)
    if h is None:
        h = _helpers[k] = Helper(k)
    try:
        return h.ask(plan, v)
    except BaseException:
        h.close()
        _helpers.pop(k, None)
        raise


@atexit.register
def close_helpers():
    for h in _helpers.values():
        h.close()


BASE = dict(proc=None, salt=0, g=1, before=0, drive="until", slices=[], gc=False, top=False, gen=False, abort=False, around=False, thread=False)


def run(plan, ctx):
    ref = simulate(plan, BASE)
    for line in ref:
        ctx.log(line)
        ctx.note_event(0, line.split(",")[1][:12] if line.startswith("(") else line[:6])
    ctx.steps += len(ref)
    ctx.simtime += plan["horizon"]
    if ref and ref[-1].startswith("error"):
        ctx.cover("error " + ERRORS[-1][:90])
    for v in plan["variants"]:
        got = simulate(plan, v) if v["proc"] is None else remote(v["proc"], plan, v)
        ctx.steps += len(got)
        ctx.simtime += plan["horizon"]
        for key in ("salt", "before", "abort", "around", "thread", "gc", "top", "gen", "proc"):
            if v[key]:
                ctx.fault(key)
        ctx.fault("drive-" + v["drive"])
        for i, (x, y) in enumerate(zip(ref, got)):
            ctx.check(x == y, kind_of(x, y), lambda: f"variation {v}: line {i} is\n  {y[:600]}\ninstead of\n  {x[:600]}")
        ctx.check(len(ref) == len(got), "length", lambda: f"variation {v}: {len(got)} lines instead of {len(ref)}: {(ref + got)[-1]}")
    ctx.nontrivial = len(ref) > 40 and len(plan["variants"]) > 1


def kind_of(x, y):
    return "history"


if __name__ == "__main__":
    for line in sys.stdin:
        plan, v = json.loads(line)
        print(json.dumps(simulate(plan, v)), flush=True)
