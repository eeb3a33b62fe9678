"""C10: rehearsal leaves the real simulation untouched."""
import dataclasses
import re

import simpy
import upstage_des.api as UP
from upstage_des.base import MotionAndDetectionError, UpstageBase, UpstageError
from upstage_des.data_utils import create_table
from upstage_des.geography import Spherical, get_intersection_locations
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.motion.geodetic_model import analytical_intersection

from dst.core import Hang, Violation, at, close

ID = "C10"
RUNS = {"quick": 5000, "thorough": 200000}
SHRINK = ["rehearsals", "faults", "programs", "steps", "nets", "watch", "list", "queue"]
RULE = ("1-3 actors with every kind of state (plain, recording, linear, shared, location, detectable, dictionary, "
        "dataclass, frozen, no_init, unset, stores, containers, comms, multi-store), 1-3 networks each, nucleus, motion "
        "manager, queues, knowledge and knowledge events run generated task programs under interrupts; rehearsals of "
        "tasks (fresh, reused and currently running instances), of networks (list, queue, end task) and clones are made "
        "at any instant, from outside and from inside tasks, some failing half way. The real world is compared before "
        "and after each rehearsal, and the whole event history with the same run without the rehearsals. Non-trivial: "
        "at least one rehearsal with two or more steps while networks run.")
REAL = ["upstage_des task, task_network, actor (clone, knowledge, queues), states, resources, nucleus, motion managers"]
STUB = []
ASSUME = ["the rehearsed tasks touch the simulation only through their actor and what they yield (documented)",
          "reading an active state takes a sample of it (an extra, correct row in its history)",
          "rehearsed tasks draw no random numbers"]


def inner(x, name, default=None):
    """A part of the engine's own bookkeeping, if it keeps one of this name."""
    return getattr(x, name, default)


class Boom(Exception):
    pass


def steps(rng, n, grid, deep=True):
    out = []
    for _ in range(n):
        k = rng.choice(["wait"] * 5 + ["set", "set", "append", "lin", "lin", "shared", "move", "stop", "dict", "dc", "seen",
                        "get", "put", "poke", "pokeshelf", "know", "unknow", "hold", "hold", "waitk", "fire", "anycancel", "queue", "clearq",
                        "marker", "window", "boom", "mimic", "plan", "newkey", "tank", "all", "nets", "say"])
        if k == "plan" and not deep:
            k = "wait"
        s = dict(op=k, d=grid * rng.randint(0, 4), v=rng.randint(0, 5), k=rng.randint(0, 3))
        if k == "plan":
            s["r"] = rehearsal(rng, grid)
        if k == "queue":
            s["q"] = [f"P{rng.randint(0, 3)}" for _ in range(rng.randint(1, 3))]
        out.append(s)
    if not any(s["op"] in ("wait", "any", "all") and s["d"] > 0 for s in out):
        out.append(dict(op="wait", d=grid * rng.randint(1, 3), v=0, k=0))
    return out


def rehearsal(rng, grid):
    return dict(kind=rng.choice(["task", "task", "task", "inst", "running", "net", "net", "net", "clone", "decide"]), a=rng.randint(0, 2),
                net=rng.randint(0, 2), task=rng.randint(0, 3),
                list=[f"P{rng.randint(0, 3)}" for _ in range(rng.randint(1, 3))] if rng.random() < 0.8 else ["D"],
                end=rng.choice([None, "P0", "P1", "P3", "D"]), know=rng.random() < 0.4, fail=rng.choice([0, 0, 0, 0, 1, 2]),
                again=rng.random() < 0.2)


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0, 1.0])
    actors = rng.randint(1, 3)
    plan = dict(actors=actors, grid=grid, manager=rng.choice([None, None, "sensor", "stepped"]), monitored=rng.random() < 0.5, geo=rng.random() < 0.3,
                programs=[dict(steps=steps(rng, rng.randint(2, 7), grid)) for _ in range(4)],
                until=grid * rng.randint(6, 30), debug=rng.random() < 0.7, t0=rng.choice([0.0, 0.0, 11.5]))
    plan["nets"] = [dict(a=rng.randrange(actors), t0=grid * rng.choice([0, 0, 1]), init=rng.choice(["P0", "P1", "P2", "P3", "D"]),
                         queue=[f"P{rng.randint(0, 3)}" for _ in range(rng.choice([0, 1, 3]))], links={n: rng.choice(["P0", "P1", "P2", "P3"]) for n in ["P0", "P1", "P2", "P3", "D"]},
                         strict=rng.random() < 0.3)
                    for _ in range(rng.randint(1, 3))]
    plan["watch"] = [dict(net=i, states=rng.sample(["note", "fuel", "load", "seen", "loc"], rng.randint(1, 3)))
                     for i in range(len(plan["nets"])) if rng.random() < 0.4]
    plan["faults"] = [dict(t=grid * rng.randint(0, 24), op=rng.choice(["int", "int", "fire", "set", "item", "item", "setq"]), net=rng.randint(0, 2),
                           v=rng.randint(0, 5), ans=rng.choice("EEIR"), depth=rng.choice([0, 0, 1, 2]), prio=rng.choice([0, 1, 2]))
                      for _ in range(rng.randint(0, 10))]
    plan["rehearsals"] = [dict(rehearsal(rng, grid), t=grid * rng.randint(0, 20) + rng.choice([0, 0, 0.25 * grid]), depth=rng.choice([0, 0, 1, 2, 3]), prio=rng.choice([0, 1, 2]))
                          for _ in range(rng.randint(1, 6))]
    return plan


@dataclasses.dataclass
class Props:
    hp: float = 1.0
    tag: str = "a"


def squared(_t, value):
    return value * value if isinstance(value, (int, float)) else 0


class Tag:
    """Accepts attribute reads only: an item of a store."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Tag{self.n}"


def make_classes(plan):
    store_cls = UP.SelfMonitoringStore if plan["monitored"] else simpy.Store
    tank_cls = UP.SelfMonitoringContainer if plan["monitored"] else simpy.Container

    class Rig(UP.Actor, entity_groups=["rigs"]):
        note = UP.State(default=0, recording=True, recording_functions=[(squared, "note2")])
        items = UP.State(default_factory=list, recording=True, record_duplicates=True)
        fuel = UP.LinearChangingState(recording=True)
        load = UP.SharedLinearChangingState(default=10.0, recording=True)
        loc = (UP.GeodeticLocationChangingState if plan.get("geo") else UP.CartesianLocationChangingState)(recording=True)
        seen = UP.DetectabilityState(default=True, recording=True)
        echo = UP.State(default=0.0, recording=True)
        inv = UP.DictionaryState(valid_types=(int, float), recording=True)
        props = UP.DataclassState(valid_types=(Props,), recording=True)
        store = UP.ResourceState(default=store_cls, valid_types=(simpy.Store,))
        tank = UP.ResourceState(default=tank_cls, valid_types=(simpy.Container,), default_kwargs={"capacity": 50, "init": 5})
        given = UP.ResourceState(valid_types=(simpy.Store,))
        radio = UP.CommunicationStore(modes=None)
        shelf = UP.MultiStoreState(default=store_cls)
        fixed = UP.State(frozen=True)
        hidden = UP.State(default=3, no_init=True)
        unset = UP.State(allow_none_default=True)
        kind = "rig"

        @property
        def total(self):
            return self.note + len(self.items)

    return Rig


class World:
    def __init__(self, plan, ctx, env, rehearse):
        self.plan, self.ctx, self.env, self.rehearse = plan, ctx, env, rehearse
        self.log = []
        self.depth = 0
        self.count = 0
        self.base = UpstageBase()
        self.build()

    # ------------------------------------------------ model
    def build(self):
        plan, env, w = self.plan, self.env, self
        if plan.get("geo"):
            UP.add_stage_variable("stage_model", Spherical)
            UP.add_stage_variable("intersection_model", get_intersection_locations)
            UP.add_stage_variable("distance_units", "nmi")
            UP.add_stage_variable("altitude_units", "ft")
            self.ctx.cover("geodetic")
        Rig = make_classes(plan)
        sensors = []
        self.manager = None
        if plan["manager"]:
            self.manager = UP.SensorMotionManager(self.cross(), debug=True) if plan["manager"] == "sensor" else UP.SteppedMotionManager(timestep=plan["grid"] / 2)
            UP.add_stage_variable("motion_manager", self.manager)

            class Sensor:
                range = 4.0
                place = w.pt(3, 1)

                def entity_entered_range(self, entity):
                    w.log.append((w.env.now, "enter", entity.name))

                def entity_exited_range(self, entity):
                    w.log.append((w.env.now, "exit", entity.name))

            sensors.append(Sensor())
        self.actors = []
        for i in range(plan["actors"]):
            self.actors.append(Rig(
                name=f"r{i}", debug_log=plan["debug"], fuel=100.0, loc=self.pt(i, 0.5), inv={"a": 1, "b": 2}, props=Props(),
                given=simpy.Store(env, capacity=20), radio={"modes": ["uhf", f"m{i}"]}, shelf={"left": {}, "top": {}, "low": {"capacity": 9}}, fixed=("x", i)))
        for s in sensors:
            self.manager.add_sensor(s, "place", "range") if plan["manager"] == "sensor" else self.manager.add_sensor(s, location_attr_name="place", radius_attr_name="range")
        if plan["manager"] == "stepped":
            for a in self.actors:
                self.manager.add_detectable(a, "loc")
            self.manager.run()
        self.tasks = [self.make_task(i) for i in range(4)]
        self.extra = UP.TaskNetworkFactory.from_single_looping("extra", self.tasks[0])
        self.decision = self.make_decision()
        self.nets, self.names = [], []
        nuclei = {}
        self.insts = {k: t() for k, t in enumerate(self.tasks)}
        for i, n in enumerate(plan["nets"]):
            classes = {f"P{k}": self.tasks[k] for k in range(4)}
            classes["D"] = self.decision
            allowed = ["P0", "P1", "P2", "P3", "D"]
            links = {k: UP.TaskLinks(default=v, allowed=[v, "D"] if n["strict"] else allowed) for k, v in n["links"].items()}
            net = UP.TaskNetworkFactory(f"net{i}", classes, links).make_network()
            actor = self.actors[n["a"] % len(self.actors)]
            actor.add_task_network(net)
            self.nets.append((actor, net))
            if n["queue"]:
                actor.set_task_queue(net.name, n["queue"])
        self.watched = {f"net{wt['net']}": wt["states"] for wt in plan["watch"]}
        for wt in plan["watch"]:
            if wt["net"] < len(self.nets):
                actor, net = self.nets[wt["net"]]
                nuc = nuclei.get(actor) or UP.TaskNetworkNucleus(actor=actor)
                nuclei[actor] = nuc
                nuc.add_network(net.name, wt["states"])
        for i, n in enumerate(plan["nets"]):
            actor, net = self.nets[i]
            at(env, n["t0"] + plan["t0"], lambda actor=actor, net=net, n=n: actor.start_network_loop(net.name, n["init"]))
        for f in plan["faults"]:
            at(env, f["t"] + plan["t0"], lambda f=f: self.fault(f), f["depth"], f["prio"])
        for r in plan["rehearsals"]:
            at(env, r["t"] + plan["t0"], lambda r=r: self.do_rehearsal(r, None), r["depth"], r["prio"])

    def cross(self):
        return analytical_intersection if self.plan.get("geo") else cartesian_linear_intersection

    def pt(self, x, y):
        """A place: on the earth one unit is a sixtieth of a degree, about a nautical mile."""
        return UP.GeodeticLocation(10 + y / 60, 20 + x / 60, 30.0 * x) if self.plan.get("geo") else UP.CartesianLocation(x, y)

    @staticmethod
    def xy(p):
        return (p.lat, p.lon, p.alt) if isinstance(p, UP.GeodeticLocation) else (p.x, p.y)

    def note(self, *items):
        # rehearsing tasks log on their own: only the real simulation is compared
        if not self.depth:
            self.log.append((self.env.now,) + items)
            if self.rehearse:
                self.ctx.log(*self.log[-1])

    # ------------------------------------------------ tasks
    def make_task(self, k):
        w = self
        prog = self.plan["programs"][k]["steps"] if k < len(self.plan["programs"]) else []

        class P(UP.Task):
            def task(self, *, actor):
                w.note("start", k, actor.name)
                if self._rehearsing:
                    w.count += 1
                    if w.count > 150:
                        raise Boom("never ends")
                for i, s in enumerate(prog):
                    yield from w.step(self, actor, s, (k, i))
                if not any(s["op"] == "wait" and s["d"] > 0 for s in prog):
                    yield UP.Wait(w.plan["grid"])
                actor.deactivate_all_states(task=self)
                actor.deactivate_all_mimic_states(task=self)
                w.note("end", k, actor.name)

            def on_interrupt(self, *, actor, cause):
                ans = cause.get("ans", "E") if isinstance(cause, dict) else "E"
                w.note("interrupted", k, actor.name, ans if isinstance(cause, dict) else getattr(cause, "state_name", None), self.get_marker(), self.get_marker_time())
                return {"E": self.INTERRUPT.END, "I": self.INTERRUPT.IGNORE, "R": self.INTERRUPT.RESTART}[ans]

        P.__name__ = f"P{k}"
        return P

    def make_decision(self):
        w = self

        class D(UP.DecisionTask):
            def make_decision(self, *, actor):
                w.note("decide", actor.name)
                actor.set_knowledge("last", actor.note, overwrite=True)

            def rehearse_decision(self, *, actor):
                actor.set_knowledge("last", -1, overwrite=True)
                actor.note = 77
                if self._network_name is not None and not self.get_actor_task_queue(actor):
                    self.set_actor_task_queue(actor, ["P2", "P1"])
                if actor.get_knowledge("fail") == "D":
                    raise Boom("decision")

        return D

    def step(self, task, actor, s, where):
        k, v, d, reh = s["op"], s["v"], s["d"], task._rehearsing
        if self.rehearse and reh:
            self.count += 1
            if actor.get_knowledge("fail") == self.count:
                raise Boom("half way")
        t = task.env.now
        touches = {"set": ["note"], "lin": ["fuel"], "shared": ["load"], "move": ["loc"], "seen": ["seen"], "stop": ["fuel", "load", "loc"]}.get(k, [])
        own = task._network_name
        if any(n in states for net, states in self.watched.items() if own == net or (str(own)[:3] == "net" and net <= own) for n in touches):
            k = "wait"  # networks would interrupt themselves, or each other in turns, for ever
        if k == "wait":
            yield UP.Wait(d)
        elif k == "set":
            actor.note = v
        elif k == "append":
            actor.items.append(v)
            actor.items = actor.items
        elif k == "lin":
            if actor in self.actors and "fuel" in actor._active_states:
                return
            actor.activate_linear_state(state="fuel", rate=float(v - 2), task=task)
            yield UP.Wait(d)
            actor.deactivate_state(state="fuel", task=task)
        elif k == "shared":
            actor.activate_state(state="load", task=task, rate=float(v - 2))
            yield UP.Wait(d)
            actor.deactivate_state(state="load", task=task)
        elif k == "move":
            if actor in self.actors and "loc" in actor._active_states:
                return
            actor.activate_location_state(state="loc", speed=1.0 + v, waypoints=[self.pt(3 + v, 2), self.pt(40, 1)], task=task)
            yield UP.Wait(d)
            actor.deactivate_state(state="loc", task=task)
        elif k == "stop":
            actor.deactivate_all_states(task=task)
        elif k == "dict":
            actor.inv["a"] += 1
        elif k == "newkey":
            actor.inv.setdefault(f"n{v}", 0)
            actor.inv[f"n{v}"] = v
        elif k == "dc":
            actor.props.hp = float(v)
        elif k == "seen":
            if self.manager is None or reh:
                actor.seen = not actor.seen
        elif k == "get":
            st = [actor.store, actor.given, actor.radio, actor.shelf["top"]][s["k"]]
            get = UP.Get(st, rehearsal_time_to_complete=d)
            wait = UP.Wait(d + self.plan["grid"])
            yield UP.Any(get, wait)
            self.note("got", where, repr(get.get_value()) if get.is_complete() else None)
            if not get.is_complete():
                get.cancel()
        elif k == "put":
            st = [actor.store, actor.given, actor.radio, actor.shelf["low"]][s["k"]]
            put = UP.Put(st, Tag(v), rehearsal_time_to_complete=d)
            wait = UP.Wait(self.plan["grid"])
            yield UP.Any(put, wait)
            if not put.is_complete():
                put.cancel()
        elif k == "tank":
            yield UP.Any(UP.Put(actor.tank, 1.0, rehearsal_time_to_complete=d), UP.Wait(d))
        elif k == "poke":
            actor.store.items.append(Tag(v))
        elif k == "pokeshelf":
            actor.shelf["top"].items.append(Tag(v))
        elif k == "know":
            actor.set_knowledge(f"k{s['k']}", [v, t], overwrite=True)
        elif k == "unknow":
            if actor.get_knowledge(f"k{s['k']}") is not None:
                actor.clear_knowledge(f"k{s['k']}")
        elif k == "hold":
            name = f"e{s['k']}"
            if not reh and actor.get_knowledge(name) is not None:
                return
            ev = actor.create_knowledge_event(name=name, rehearsal_time_to_complete=d)
            wait = UP.Wait(d + self.plan["grid"])
            yield UP.Any(ev, wait)
            self.note("held", where, ev.is_complete(), repr(ev.get_payload()))
            if actor.get_knowledge(name) is ev:
                actor.clear_knowledge(name)
        elif k == "waitk":
            # wait on whatever event is in knowledge, alone
            ev = actor.get_knowledge(f"e{s['k']}")
            if ev is not None:
                yield UP.Any(ev, UP.Wait(d + self.plan["grid"]))
                self.note("waited", where, ev.is_complete())
        elif k == "fire":
            name = f"e{s['k']}"
            ev = actor.get_knowledge(name)
            if ev is not None and not ev._event.triggered:
                actor.succeed_knowledge_event(name=name, v=v)
        elif k == "anycancel":
            ev = UP.Event(rehearsal_time_to_complete=d + 1)
            both = UP.Any(ev, UP.Wait(d))
            yield both
            if not ev.is_complete():
                ev.cancel()
        elif k == "all":
            yield UP.All(UP.Wait(d), UP.Any(UP.Wait(d + 1), UP.Wait(0.5 * d)))
        elif k == "queue":
            if task._network_name is not None and not task.get_actor_task_queue(actor):
                task.set_actor_task_queue(actor, s["q"])
        elif k == "clearq":
            if task._network_name is not None:
                task.clear_actor_task_queue(actor)
        elif k == "marker":
            task.set_marker(f"m{v}", task.INTERRUPT.IGNORE if v % 2 else task.INTERRUPT.END)
        elif k == "window":
            got = yield UP.WindowedGet(actor.store, d, get_kwargs=dict(rehearsal_time_to_complete=d)) if actor.store.items or reh else UP.Wait(0)
            self.note("window", where, repr(got))
        elif k == "boom":
            if reh and v == 0:
                raise Boom("in rehearsal")
            if reh and v == 1:
                yield self.env.event()
        elif k == "mimic":
            other = self.actors[s["k"] % len(self.actors)]
            if other.name != actor.name.split(" [")[0] and "echo" not in actor._mimic_states and (not reh or (v == 0 and not any("fuel" in n for n in self.watched.values()))):
                # (reading a watched active state of a real actor tells its nucleus, whoever reads it)
                actor.activate_mimic_state(self_state="echo", mimic_state="fuel", mimic_actor=other, task=task)
        elif k == "nets":
            if reh:  # while really running it would take away what runs
                if v % 2:
                    actor.add_task_network(UP.TaskNetworkFactory.from_single_looping(actor.suggest_network_name(self.extra), self.tasks[0]).make_network())
                for n in list(actor._task_networks)[v // 2:v // 2 + 1]:
                    actor.delete_task_network(n)
                    inner(actor, "_task_queue", {}).pop(n, None) if v == 5 and n != task._network_name else None
        elif k == "say":
            actor.log(f"says {v}")
        elif k == "plan":
            if self.depth < 2:
                self.do_rehearsal(s["r"], actor)
        if not reh:
            self.note("step", where, actor.name)

    # ------------------------------------------------ faults of the background
    def fault(self, f):
        actor, net = self.nets[f["net"] % len(self.nets)] if self.nets else (self.actors[0], None)
        op = f["op"]
        self.ctx.fault(op) if self.rehearse else None
        if op == "int" and net is not None:
            data = actor.get_running_task(net.name)
            if data is not None and data.process.is_alive:
                actor.interrupt_network(net.name, cause={"ans": f["ans"]})
        elif op == "fire":
            for n in range(4):
                ev = actor.get_knowledge(f"e{n}")
                if ev is not None and not ev._event.triggered:
                    actor.succeed_knowledge_event(name=f"e{n}", v=f["v"])
        elif op == "set":
            actor.note = f["v"]
            actor.items.append(f["v"])
        elif op == "item":
            [actor.store, actor.given, actor.radio, actor.shelf["top"]][f["v"] % 4].put(Tag(f["v"]))
        elif op == "setq" and net is not None:
            if not actor.get_task_queue(net.name):
                actor.set_task_queue(net.name, [f"P{f['v'] % 4}", "P1"])
        self.note("fault", op)

    # ------------------------------------------------ rehearsals
    def do_rehearsal(self, r, actor):
        if not self.rehearse:
            return
        ctx = self.ctx
        actor = actor if actor is not None else self.actors[r["a"] % len(self.actors)]
        nets = [n for n in actor._task_networks.values()]
        for _ in range(2 if r["again"] else 1):
            before = self.snapshot()
            before_count, self.count = self.count, 0
            self.depth += 1
            out = None
            try:
                know = {"fail": "D" if r["fail"] == 2 else 2 if r["fail"] else 0}
                if r["know"]:
                    know["k0"] = "given"
                    know["e1"] = UP.Event(rehearsal_time_to_complete=1.0)
                kind = r["kind"]
                if kind == "task":
                    out = self.tasks[r["task"]]().rehearse(actor=actor, knowledge=know)
                elif kind == "inst":
                    t = self.insts[r["task"]]
                    out = t.rehearse(actor=actor, knowledge=know)
                elif kind == "running" and nets:
                    t = getattr(nets[r["net"] % len(nets)], "_current_task_inst", None)
                    out = (t or self.tasks[0]()).rehearse(actor=actor, knowledge=know)
                elif kind == "decide":
                    out = self.decision().rehearse(actor=actor, knowledge=know)
                elif kind == "clone" or not nets:
                    out = actor.clone(knowledge=know)
                else:
                    out = actor.rehearse_network(nets[r["net"] % len(nets)].name, [t for t in r["list"]], knowledge=know, end_task=r["end"])
                ctx.fault("rehearsal:" + kind)
                if out is not None and kind != "clone":
                    out.note, out.seen
            except (Hang, Violation):
                raise
            except Exception as e:  # a rehearsal may fail, but never with consequences
                ctx.fault("failed-rehearsal:" + type(e).__name__)
                ctx.check(type(e) is not MotionAndDetectionError, "rehearsal-reached-manager", lambda e=e: f"t={self.env.now}: {e}")
            finally:
                self.depth -= 1
            if self.count >= 2:
                ctx.nontrivial = True
            self.count = before_count
            self.differs(before, self.snapshot(), f"rehearsal {r['kind']} of {actor.name} at {self.env.now}")

    def clones_apart(self):
        """What is asked of a clone's stores is never served by, nor wakes, the real ones."""
        for a in self.actors:
            real = [a.store, a.given, a.radio, a.shelf["top"], a.shelf["low"]]
            waits = [s.get() for s in real] + [a.tank.get(1000)]
            free = [w.triggered for w in waits]
            before = self.snapshot()
            self.depth += 1
            c = a.clone()
            mine = [c.store, c.given, c.radio, c.shelf["top"], c.shelf["low"]]
            had = [list(map(id, s.items)) for s in mine]
            for s in mine:
                s.put(Tag(9))
            c.tank.put(1)
            self.depth -= 1
            after = self.snapshot()
            for k in ("queue",):  # what the clone's requests left on the agenda is not the matter here
                before.pop(k), after.pop(k)
            self.differs(before, after, f"requests to a clone of {a.name}")
            for w, f in zip(waits, free):
                self.ctx.check(w.triggered == f, "rehearsal-changed-store", f"a request waiting on {a.name}'s {w.resource} was served by a put to its clone's")
            for s, h in zip(mine, had):
                self.ctx.check(list(map(id, s.items))[:-1] == h, "clone-store", f"a put to a clone's store left {s.items} there")
            got = [s.get() for s in mine]
            for s, g, h in zip(mine, got, had):
                self.ctx.check(g.triggered and len(s.items) == len(h), "clone-store", f"a get from a clone's store that held {len(h) + 1} items left {len(s.items)}")
            again = self.snapshot()
            again.pop("queue")
            self.differs(before, again, f"requests to a clone of {a.name}")
            puts = [a.given.put(Tag(8)) for _ in range(22)] + [a.shelf["low"].put(Tag(8)) for _ in range(11)]
            free = [w.triggered for w in puts]
            self.depth += 1
            c = a.clone()
            for s in (c.given, c.shelf["low"]):
                for _ in range(3):
                    g = s.get()
                    self.ctx.check(g.triggered, "clone-store", "nothing to get from the clone of a full store")
                    for cb in g.callbacks:  # as when the agenda gets to it
                        cb(g)
            self.depth -= 1
            for w, f in zip(puts, free):
                self.ctx.check(w.triggered == f, "rehearsal-changed-store", f"a put waiting on {a.name}'s {w.resource} was served by a get from its clone's")

    # ------------------------------------------------ comparing worlds
    def snapshot(self):
        env = self.env
        snap = {"now": env.now, "queue": sorted((t, p, i, id(e)) for t, p, i, e in env._queue),
                "actors": [id(a) for a in self.base.get_actors()], "monitored": [id(m) for m in self.base.get_monitored()],
                "groups": {k: [id(e) for e in v] for k, v in self.base.get_all_entity_groups().items()},
                "recorded": len(self.base.get_recorded()), "random": self.base.stage.random.getstate(), "stage": sorted(self.base.stage.keys())}
        for a in self.actors:
            d, p = a.__dict__, a.name + "."
            active = set(a._active_states) | set(a._mimic_states)
            for n in a._state_defs:
                if n in active or n in ("inv", "props", "shelf") or n not in d:
                    continue
                v = d[n]
                snap[p + n] = (id(v), repr(v)) if not isinstance(v, (simpy.Store, simpy.Container)) else self.res(v)
            snap[p + "defined"] = sorted(n for n in a._state_defs if n in d)
            snap[p + "inv"] = dict(d.get("inv", {}))
            snap[p + "props"] = repr(d.get("props"))
            snap[p + "shelf"] = {k: self.res(v) for k, v in d.get("shelf", {}).items()}
            for n, h in a._state_histories.items():
                if n not in active:
                    snap[p + "history." + n] = repr(h)
            snap[p + "knowledge"] = {k: (id(v), repr(v) if not isinstance(v, UP.Event) else (id(v._event), v._event.triggered, v.is_complete())) for k, v in a._knowledge.items()}
            snap[p + "queues"] = {k: list(v) for k, v in a.get_all_task_queues().items()}
            snap[p + "active"] = sorted(a._active_states), sorted(a._mimic_states)
            snap[p + "locks"] = {k: sorted(map(id, v)) for k, v in inner(a, "_tasks_by_state", {}).items() if v}
            snap[p + "tasks"] = {id(k): sorted(v) for k, v in inner(a, "_states_by_task", {}).items() if v}
            snap[p + "log"] = len(a.get_log())
            snap[p + "env"] = id(a.env)
            snap[p + "nucleus"] = id(inner(a, "_state_listener"))
            snap[p + "networks"] = {k: id(v) for k, v in a._task_networks.items()}
            for k, n in a._task_networks.items():
                t = inner(n, "_current_task_inst")
                snap[p + "net." + k] = (inner(n, "_current_task_name"), id(t), id(inner(n, "_current_task_proc")))
                if t is not None:
                    snap[p + "task." + k] = (inner(t, "_rehearsing") and not self.depth, id(t.env) if not self.depth else 0, t.get_marker(), t.get_marker_time(), inner(t, "_interrupt_action"))
        for k, t in self.insts.items():
            snap[f"inst{k}"] = (t.get_marker(), t.get_marker_time(), inner(t, "_rehearsing") and not self.depth)
        return snap

    def res(self, v):
        out = [id(v), len(v.put_queue), len(v.get_queue)]
        out.append([id(x) for x in v.items] if isinstance(v, simpy.Store) else v.level)
        out.append(list(getattr(v, "_quantities", [])))
        return out

    def differs(self, a, b, where):
        for k in sorted(set(a) | set(b)):
            if a.get(k, "absent") != b.get(k, "absent"):
                self.ctx.violate("rehearsal-changed-" + k.split(".")[-1 if "history" not in k else -2], f"{where}: {k}: {str(a.get(k, 'absent'))[:500]} -> {str(b.get(k, 'absent'))[:500]}")

    def final(self):
        out = []
        for a in self.actors:
            out.append((a.name, "value", {n: (repr(getattr(a, n)) if n not in ("fuel", "load", "loc", "echo", "store", "tank", "given", "radio", "shelf", "inv", "props") else None) for n in a._state_defs if n != "unset"}))
            out.append((a.name, "fuel", a.fuel, a.load, *self.xy(a.loc), a.echo))
            out.append((a.name, "res", repr(a.store.items), a.tank.level, repr(a.given.items), repr(a.radio.items), repr({k: s.items for k, s in a.__dict__.get("shelf", {}).items()}), repr(a.__dict__.get("inv")), repr(a.__dict__.get("props"))))
            out.append((a.name, "queues", a.get_all_task_queues()))
            out.append((a.name, "knowledge", {k: (v.is_complete() if isinstance(v, UP.Event) else repr(v)) for k, v in a._knowledge.items()}))
            out.append((a.name, "log", [(t, re.sub(r"0x[0-9a-f]+", "0x", str(m))) for t, m in a.get_log()]))
        rows, _ = create_table()
        if True:
            kept = [r for r in rows if r[2] not in ("fuel", "load", "loc", "echo") and "[CLONE" not in str(r[0])]
            out.append(("rows", sorted(repr(r) for r in kept)))
            out.append(("clones", [r for r in rows if "[CLONE" in str(r[0])]))
        self.samples = {(a.name, n): list(a._state_histories.get(n, [])) for a in self.actors for n in ("fuel", "load", "loc", "echo")}
        return out


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and close(a, b, 1e-9)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return a == b


def one(plan, ctx, rehearse):
    trace = []
    orig = ctx.note_event
    if rehearse:
        ctx.note_event = lambda t, n: (trace.append((t, n)), orig(t, n))
    else:
        ctx.note_event = lambda t, n: trace.append((t, n))
    try:
        with ctx.context(initial_time=plan["t0"], random_seed=5) as env:
            w = World(plan, ctx, env, rehearse)
            failed = None
            try:
                ctx.drive(env, plan["t0"] + plan["until"])
            except (UpstageError, RuntimeError) as e:
                failed = f"{type(e).__name__}"
                w.note("stopped", failed)
            end = w.final() if failed is None else []
            if rehearse:
                w.clones_apart()
            return w, trace, end
    finally:
        del ctx.note_event


def run(plan, ctx):
    w1, t1, e1 = one(plan, ctx, True)
    w0, t0, e0 = one(plan, ctx, False)
    for i, (a, b) in enumerate(zip(t1, t0)):
        ctx.check(same(a, b), "event-history-differs", lambda: f"event {i}: {a} with rehearsals, {b} without; around {t1[max(0, i - 3):i + 3]}")
    ctx.check(len(t1) == len(t0), "event-history-differs", f"{len(t1)} events with rehearsals, {len(t0)} without")
    for a, b in zip(w1.log, w0.log):
        ctx.check(same(a, b), "history-differs", lambda: f"{a} with rehearsals, {b} without")
    ctx.check(len(w1.log) == len(w0.log), "history-differs", "different number of facts")
    for a, b in zip(e1, e0):
        ctx.check(same(a, b), "end-differs", lambda: f"{a} with rehearsals, {b} without")
    if not e1:
        ctx.cover("stopped")
        return
    for key, base in w0.samples.items():
        have = w1.samples[key]
        j = 0
        for i, s in enumerate(base):
            while j < len(have) and not same_sample(have[j], s):
                j += 1
            ctx.check(j < len(have), "sample-lost", f"{key} at {i} of {len(base)} samples, not among the {len(have)} with rehearsals: t={s[0]} {type(s[1]).__name__}")


def same_sample(a, b):
    va, vb = a[1], b[1]
    if type(va) is not type(vb) and not (isinstance(va, (int, float)) and isinstance(vb, (int, float))):
        return False
    place = (UP.CartesianLocation, UP.GeodeticLocation)
    if not isinstance(va, (int, float) + place):
        return close(a[0], b[0], 1e-9) and va == vb
    if isinstance(va, place):
        return close(a[0], b[0], 1e-9) and all(map(close, World.xy(va), World.xy(vb)))
    return close(a[0], b[0], 1e-9) and close(va, vb)
