"""C22: recorded histories and tables are a faithful replay of the run."""
import math
from collections import Counter
from copy import deepcopy
from dataclasses import dataclass, field

import simpy
import upstage_des.api as UP
from upstage_des.data_utils import create_location_table, create_table, get_recorded_data, record_data
from upstage_des.data_utils.data_recorder import DataRecorder
from upstage_des.geography import Spherical
from upstage_des.states import ActiveStatus

from dst.core import at, close

ID = "C22"
RUNS = {"quick": 8000, "thorough": 400000}
SHRINK = ["ops", "actors", "faults"]
RULE = ("1-4 actors of generated declarations (plain, list, dict, dataclass, dictionary, dataclass-state, linear, shared "
        "linear, Cartesian or geodetic location, plain location, mimicking, monitored store, container and multi-store "
        "states; recording with and without duplicates, recording functions and classes) undergo 4-60 assignments, "
        "mutations, activations, reads, clonings and custom recordings at generated instants, by the model and by tasks "
        "that are interrupted; an independent recorder keeps what the histories must hold; histories, both tables, "
        "logs and custom data are compared at generated instants and at the end. "
        "Non-trivial: three kinds of states changed and a table was exported after it.")
REAL = ["upstage_des states, proxies, actors, tasks, monitored resources, data_utils"]
STUB = ["none"]
ASSUME = ["dictionary and dataclass states keep the assigned value itself, as documented: mutable values are not put in them",
          "an active state is sampled when it is read, activated, deactivated or cloned; equal samples of one instant count once"]


@dataclass
class Pair:
    a: int
    b: object = 0
    c: list = field(default_factory=list)


@dataclass
class Props:
    speed: int
    power: float = 0.0


class Seen:
    """Counts what it is given: must be one per actor."""

    def __init__(self):
        self.seen = Counter()

    def __call__(self, time, value):
        self.seen[repr(value)] += 1
        return max(self.seen.values())


class Sum:
    def __init__(self):
        self.n = 0

    def __call__(self, time, value):
        self.n += 1
        return (self.n, sum(x or 0 for x in value.values()))


def twice(time, value):
    return value * 2


def when(time, value):
    return (time, value)


def keep(time, value):
    return value


def total(time, value):
    return sum(x or 0 for x in value.values())


def props_sum(time, value):
    return value.speed + value.power


def count(items):
    return Counter(items)


STATES = ["n", "l", "d", "dc", "un", "kd", "kp", "lin", "sh", "loc", "ploc"]


def gen(rng, tier):
    na = rng.randint(1, 4)
    geo = rng.random() < 0.3
    actors = []
    for i in range(na):
        actors.append(dict(kind=rng.choice("AAAB"), t=rng.choice([0, 0, 0, 2.5]), name=f"actor {i}" if rng.random() < 0.8 else "twin", log=rng.random() < 0.5))
    ops, t = [], 0.0
    for i in range(rng.randint(4, 30 if rng.random() < 0.8 else 60)):
        if rng.random() < 0.6:
            t += rng.choice([0.25, 0.5, 1, 1, 2])
        op = rng.choice(["set"] * 7 + ["key"] * 4 + ["act"] * 3 + ["deact"] * 3 + ["read"] * 3 + ["mutate"] * 2 + ["record"] + ["put", "get"] + ["data"] * 2
                        + ["log", "clone", "export", "export", "bad", "work", "raw", "mimic", "unmimic", "static"])
        ops.append(dict(op=op, t=t, k=rng.randrange(na), s=rng.choice(STATES), v=rng.randint(0, 3), w=rng.randint(0, 3), r=rng.choice([0.0, 1.0, -1.5, 2.0]),
                        task=rng.randrange(2), peek=rng.random() < 0.3, copy=rng.random() < 0.5, dur=rng.choice([0.6, 1.6, 3.1])))
        if op in ("set", "key", "record", "data", "act") and rng.random() < 0.15:
            ops.append(dict(ops[-1]))
        if op == "mutate":
            ops[-1]["s"] = rng.choice(["l", "d", "dc", "un"])
    faults = []
    for o in ops:
        if o["op"] == "work" and rng.random() < 0.5:
            faults.append(dict(t=o["t"] + o["dur"] * rng.random(), k=o["k"]))
    flag = lambda p=0.35: rng.random() < p
    return dict(geo=geo, actors=actors, ops=ops, faults=faults, end=t + 5, dup=dict((s, flag()) for s in STATES), fn=dict((s, flag(0.5)) for s in STATES),
                rec=dict((s, flag(0.85)) for s in STATES), item=flag(), named=flag(), lone=flag(0.5), none=flag(0.3), restrict=flag(), nones=flag(), motion=flag())


def classes(plan):
    dup, fn, rec = plan["dup"], plan["fn"], plan["rec"]

    def kw(s, *funcs):
        d = dict(recording=rec[s], record_duplicates=dup[s])
        if fn[s]:
            d["recording_functions"] = [(f, f"{s}_{f.__name__}") for f in funcs]
        return d

    Loc = UP.GeodeticLocationChangingState if plan["geo"] else UP.CartesianLocationChangingState
    Place = UP.GeodeticLocation if plan["geo"] else UP.CartesianLocation

    class Plain(UP.Actor):
        n = UP.State(default=0, **kw("n", Seen, twice, when))
        l = UP.State(default_factory=list, **kw("l", Seen, keep))
        d = UP.State(default_factory=dict, valid_types=dict, **kw("d", Seen, keep))
        dc = UP.State(valid_types=(Pair, type(None)), **kw("dc", Seen))
        un = UP.State(allow_none_default=True, **kw("un", Seen))
        q = UP.State(default=1)
        nodict = UP.DictionaryState()
        kd = UP.DictionaryState(valid_types=(int, float, type(None)) if plan["nones"] else (int, float), **kw("kd", total, Sum))
        kp = UP.DataclassState(valid_types=Props, **kw("kp", props_sum))
        mim = UP.State(default=-1, recording=True, recording_functions=[(twice, "mim_twice")])
        st = UP.ResourceState(default=UP.SelfMonitoringStore, default_kwargs=dict(item_func=count) if plan["item"] else {})
        co = UP.ResourceState(default=UP.SelfMonitoringContainer)
        ms = UP.MultiStoreState(default=UP.SelfMonitoringStore, valid_types=(simpy.Store, simpy.Container))
        plainst = UP.ResourceState(default=simpy.Store)

    class Mover(Plain):
        lin = UP.LinearChangingState(default=0.0, **kw("lin", twice))
        nlin = UP.LinearChangingState(default=0.0)
        sh = UP.SharedLinearChangingState(default=0.0, recording=rec["sh"])
        loc = Loc(recording=rec["loc"])
        ploc = UP.State(valid_types=(Place, type(None)) if plan["none"] else Place, recording=rec["ploc"], record_duplicates=dup["ploc"])

    return dict(A=Mover, B=Plain)


ACTIVE = ("lin", "sh", "loc")


class Work(UP.Task):
    """Changes an active state for a while; may be interrupted."""

    def task(self, *, actor):
        w, rec, dur, rate = self.get_actor_knowledge(actor, "work", must_exist=True)
        self.clear_actor_knowledge(actor, "work")
        self.rec = rec
        rec.busy_task = self
        actor.activate_linear_state(state="lin", rate=rate, task=self)
        rec.activated("lin", rate)
        yield UP.Wait(dur)
        actor.deactivate_state(state="lin", task=self)
        rec.deactivating("lin")
        rec.busy_task = None

    def on_interrupt(self, *, actor, cause):
        self.rec.deactivating("lin")
        self.rec.busy_task = None
        return self.INTERRUPT.END


class Expect:
    """What one actor's histories must hold."""

    def __init__(self, w, spec, i):
        self.w, self.i, self.spec = w, i, spec
        plan = w.plan
        cls = w.cls[spec["kind"]]
        self.mover = spec["kind"] == "A"
        self.hist, self.val, self.rate, self.t0 = {}, {}, {}, {}
        self.on = {"lin": False, "loc": False, "sh": {}}
        self.fn = {}
        self.last_obj = {}
        self.mimics = None
        self.busy_task = None
        self.logs = []
        self.res = {}
        kw = dict(dc=Pair(1, 2, [3]), nodict={"x": 1}, kd={"a": 1, "b": None if w.plan["nones"] else 2} if i % 2 else {}, kp=Props(1, 2.0), ms={"s1": {}, "c1": dict(kind=UP.SelfMonitoringContainer, init=2), "p1": dict(kind=simpy.Store)})
        if self.mover:
            kw["loc"] = w.place(i, 0)
            kw["ploc"] = w.place(i, 1) if not plan["none"] or i % 2 else None
        if plan["named"]:
            kw["st"] = dict(name="lone store" if plan["lone"] else f"store of {i}")
        self.a = cls(name=spec["name"], debug_log=spec["log"], debug_log_time=False, **kw)
        for s, v in dict(n=0, l=[], d={}, dc=kw["dc"]).items():
            self.assigned(s, v)
        self.rec_mim(-1)
        self.kd, self.kp = dict(kw["kd"]), [kw["kp"].speed, kw["kp"].power]
        for k in self.kd:
            self.key_set("kd", k, self.kd[k], fns=False)
        self.kd_fns() if plan["rec"]["kd"] else None
        self.key_set("kp", "speed", 1, fns=False)
        self.key_set("kp", "power", 2.0, fns=True)
        self.objs = {"dc": kw["dc"]}
        if self.mover:
            for s in ("lin", "sh"):
                self.val[s] = 0.0
                self.assigned(s, 0.0)
            for s in ("loc", "ploc"):
                self.val[s] = kw[s]
                self.assigned(s, kw[s])
        now = w.env.now
        empty = Counter() if plan["item"] else 0
        self.res = {"st": [(now, empty)], "co": [(now, 0)], "ms.s1": [(now, 0)], "ms.c1": [(now, 2)]}
        self.items = []
        self.level = 0
        self.ms_items, self.ms_level = [], 2

    # -- the independent recorder
    def add(self, name, value, dup):
        h = self.hist.setdefault(name, [])
        e = (self.w.env.now, deepcopy(value))
        if not h or dup or type(h[-1][1]) is ActiveStatus or h[-1][0] != e[0] or not same(h[-1][1], value):
            h.append(e)

    def run_fn(self, s, f, value, dup):
        name = f"{s}_{f.__name__}"
        if name not in self.fn:
            self.fn[name] = f() if isinstance(f, type) else f
        r = self.fn[name](self.w.env.now, value)
        h = self.hist.setdefault(name, [])
        e = (self.w.env.now, deepcopy(r))
        if not h or dup or h[-1] != e:
            h.append(e)

    def assigned(self, s, value):
        plan = self.w.plan
        if not plan["rec"][s]:
            return
        dup = plan["dup"][s] and s not in ("sh", "loc")
        self.add(s, value, dup)
        if plan["fn"][s]:
            funcs = {"n": [Seen, twice, when], "lin": [twice], "l": [Seen, keep], "d": [Seen, keep], "sh": [], "loc": [], "ploc": []}.get(s, [Seen])
            for f in funcs:
                self.run_fn(s, f, value, dup)

    def rec_mim(self, v):
        self.add("mim", v, False)
        self.run_fn("mim", twice, v, False)

    def kd_fns(self):
        if self.w.plan["fn"]["kd"]:
            for f in (total, Sum):
                self.run_fn("kd", f, self.kd, self.w.plan["dup"]["kd"])

    def key_set(self, s, k, v, fns=True):
        plan = self.w.plan
        if s == "kd":
            self.kd[k] = v
        else:
            self.kp[k == "power"] = v
        if not plan["rec"][s]:
            return
        self.add(f"{s}.{k}", v, plan["dup"][s])
        if fns and s == "kd":
            self.kd_fns()
        elif fns and plan["fn"]["kp"]:
            self.run_fn("kp", props_sum, Props(*self.kp), plan["dup"]["kp"])

    # -- active states
    def now_value(self, s):
        dt = self.w.env.now - self.t0.get(s, 0)
        if s == "sh":
            return self.val["sh"] + dt * sum(self.on["sh"].values())
        if not self.on[s]:
            return self.val[s]
        if s == "lin":
            return self.val["lin"] + dt * self.rate["lin"]
        return self.w.along(self.val["loc"], self.i, self.rate["loc"] * dt)

    def is_on(self, s):
        return bool(self.on[s])

    def sample(self, s):
        """The state was read."""
        if self.is_on(s):
            v = self.now_value(s)
            if s != "loc":
                self.val[s], self.t0[s] = v, self.w.env.now
            self.assigned(s, v)
            return v
        return self.val[s]

    def switch(self, s, status):
        if self.w.plan["rec"][s]:
            h = self.hist[s]
            if h[-1][0] != self.w.env.now or type(h[-1][1]) is ActiveStatus:
                self.assigned(s, self.now_value(s))
            h.append((self.w.env.now, status))

    def activated(self, s, rate, task=None):
        if s == "sh":
            v = self.now_value("sh")
            self.val[s] = v
            self.t0[s] = self.w.env.now
            self.on[s][task] = rate
        else:
            self.rate[s], self.t0[s], self.on[s] = rate, self.w.env.now, True
        if s != "loc":
            self.assigned(s, self.val[s])
        self.switch(s, ActiveStatus.activating)

    def deactivating(self, s, task=None):
        v = self.now_value(s)
        self.val[s], self.t0[s] = v, self.w.env.now
        self.assigned(s, v)
        if s == "sh":
            del self.on["sh"][task]
            if self.on["sh"]:
                return
        else:
            self.on[s] = False
        self.switch(s, ActiveStatus.deactivating)


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.cls = classes(plan)
        self.exp = [None] * len(plan["actors"])
        self.tasks = [UP.Task(), UP.Task()]
        self.data = []
        self.kinds = set()
        self.changed = self.exported = 0
        self.lone = []
        if plan["lone"]:
            self.lone = [UP.SelfMonitoringStore(env, name="lone store"), UP.SelfMonitoringContainer(env, name="lone tank", init=1), UP.SelfMonitoringStore(env)]
            self.lone_hist = {"lone store": [(0.0, 0)], "lone tank": [(0.0, 1)], "None": [(0.0, 0)]}

    def place(self, i, v):
        if self.plan["geo"]:
            if v % 3 == 1:  # every third place is given in radians
                return UP.GeodeticLocation(math.radians(10.0 * i + v), math.radians(20.0 + v), 100.0 * v, in_radians=True)
            return UP.GeodeticLocation(10.0 * i + v, 20.0 + v, 100.0 * v)
        return UP.CartesianLocation(10.0 * i + v, 2.0 * v, 1.0 * v)

    def target(self, i):
        return UP.GeodeticLocation(60.0, 120.0, 0.0) if self.plan["geo"] else UP.CartesianLocation(1e4, 5e3, -1e3)

    def along(self, p, i, dist):
        q = self.target(i)
        if self.plan["geo"]:
            return p if dist == 0 else None  # judged by what the read returned
        n = ((q.x - p.x) ** 2 + (q.y - p.y) ** 2 + (q.z - p.z) ** 2) ** 0.5
        f = dist / n
        return UP.CartesianLocation(p.x + f * (q.x - p.x), p.y + f * (q.y - p.y), p.z + f * (q.z - p.z))

    # -- operations
    def do(self, o):
        k = o["k"]
        e = self.exp[k]
        env, ctx, op, s, v = self.env, self.ctx, o["op"], o["s"], o["v"]
        if op == "data":
            obj = {"v": [v]}
            (record_data if v % 2 else DataRecorder().record_data)(obj, copy=o["copy"])
            self.data.append((env.now, deepcopy(obj) if o["copy"] else obj))
            if v > 1:
                obj["v"].append("later")
            if v == 3:
                record_data(None)
                self.data.append((env.now, None))
            return
        if op == "export":
            return self.verify()
        if op == "get" and self.lone and o["v"] % 2:
            self.lone[0].put(o["w"])
            self.lone[1].put(1)
            self.lone_hist["lone store"].append((env.now, len(self.lone[0].items)))
            self.lone_hist["lone tank"].append((env.now, self.lone[1].level))
            return
        if e is None:
            return
        a = e.a
        ctx.cover(op)
        if op == "set":
            if s in ("kd", "kp") or (not e.mover and s in ACTIVE + ("ploc",)):
                s = "n"
            if s == "loc" and e.is_on("loc"):
                return
            if s == "lin" and e.busy_task and v == 0:
                return
            val = self.value(e, s, v, o)
            setattr(a, s, val)
            if s in ACTIVE:
                e.val[s], e.t0[s] = val, env.now
            if s == "n":
                e.val["n"] = val
                for f in self.exp:
                    if f and f.mimics is e:
                        f.rec_mim(val)
            e.objs[s] = val
            e.assigned(s, val)
            self.kinds.add(s)
        elif op == "key":
            if s == "kp" or v == 3:
                key, val = [("speed", o["w"]), ("power", float(o["w"]))][o["task"]]
                setattr(a.kp, key, val)
                e.key_set("kp", key, val)
                self.kinds.add("kp")
            else:
                key = "abcd"[v]
                val = None if self.plan["nones"] and o["w"] == 3 else o["w"]
                if o["peek"]:
                    had = key in e.kd
                    got = a.kd.setdefault(key, val)
                    ctx.check(got == (e.kd[key] if had else val), "setdefault", f"{key} -> {got}")
                    if not had:
                        e.key_set("kd", key, val)
                else:
                    a.kd[key] = val
                    e.key_set("kd", key, val)
                self.kinds.add("kd")
        elif op == "static":
            a.q = v
        elif op == "mutate":
            obj = e.objs.get(s)
            if isinstance(obj, list):
                obj.append("mutated")
            elif isinstance(obj, dict):
                obj[f"m{v}"] = "mutated"
            elif isinstance(obj, Pair):
                obj.a = 77 + v
                obj.c.append(v)
            else:
                return
            ctx.fault("mutated")
            if o["peek"]:
                a.record_state(s)
                e.assigned(s, obj)
        elif op == "record":
            if s in ("kd", "kp", "un") or (not e.mover and s in ACTIVE + ("ploc",)):
                s = "n"
            if s in ACTIVE:
                if s == "loc" and self.plan["geo"] and e.is_on("loc"):
                    return
                val = e.sample(s)
            a.record_state(s)
            e.assigned(s, getattr(a, s) if s not in ACTIVE else val)
        elif op == "raw":
            if v % 2:
                a.kd.raw_object()[f"raw{v}"] = o["w"]
                e.kd[f"raw{v}"] = o["w"]
            else:
                a.kp.raw_object().speed = 50 + o["w"]
                e.kp[0] = 50 + o["w"]
            ctx.fault("raw-mutation")
        elif op == "bad":
            s, val = [("d", 3), ("kp", 3), ("dc", "x"), ("nosuch", None)][v]
            try:
                if s == "kp":
                    a.kp.speed = "fast"
                elif s == "nosuch":
                    a.record_state("nosuch")
                else:
                    setattr(a, s, val)
            except (TypeError, UP.SimulationError):
                ctx.fault("refused")
            else:
                ctx.violate("not-refused", f"{s}={val!r}")
        elif op in ("act", "deact", "read"):
            if not e.mover:
                return
            s = s if s in ACTIVE else ACTIVE[v % 3]
            self.active(e, s, op, o)
        elif op == "work":
            if e.mover and not e.is_on("lin") and not e.busy_task:
                a.set_knowledge("work", (self, e, o["dur"], o["r"]))
                e.proc = Work()
                e.busy_task = e.proc
                e.run_proc = e.proc.run(actor=a)
        elif op == "put":
            if o["task"]:
                a.st.put(v)
                e.items.append(v)
                e.res["st"].append((env.now, Counter(e.items) if self.plan["item"] else len(e.items)))
                a.ms["s1"].put(v)
                e.ms_items.append(v)
                e.res["ms.s1"].append((env.now, len(e.ms_items)))
            else:
                a.co.put(v + 1)
                e.level += v + 1
                e.res["co"].append((env.now, e.level))
                a.ms["c1"].get(0.25)
                e.ms_level -= 0.25
                if e.ms_level < 0:
                    e.ms_level += 0.25
                else:
                    e.res["ms.c1"].append((env.now, e.ms_level))
            self.kinds.add("store")
        elif op == "get":
            if e.items:
                a.st.get()
                e.items.pop(0)
                e.res["st"].append((env.now, Counter(e.items) if self.plan["item"] else len(e.items)))
        elif op == "log":
            a.log(f"note {v}")
            if e.spec["log"]:
                e.logs.append((env.now, f"note {v}"))
        elif op == "clone":
            if e.mover:
                if e.is_on("loc") and self.plan["geo"]:
                    e.geo_now = a.loc
                    e.hist_geo()
                for x in ACTIVE:
                    if not (x == "loc" and self.plan["geo"]):
                        e.sample(x)
            if e.mimics:
                e.rec_mim(e.mimics.val.get("n", 0))
            c = a.clone()
            ctx.fault("cloned")
            c.n = 100 + v
            c.kd["clone"] = 5
            c.kp.speed = 99
            c.st.put("clone")
            c.ms["s1"].put("clone")
            c.log("only the clone")
            if e.mover:
                c.ploc = self.place(8, 8)
            self.check_clone = c
        elif op == "mimic":
            f = self.exp[(k + 1) % len(self.exp)]
            if f is None or f is e or e.mimics or f.mimics is e:
                return
            e.a.activate_mimic_state(self_state="mim", mimic_state="n", mimic_actor=f.a, task=self.tasks[0])
            e.mimics = f
        elif op == "unmimic":
            if e.mimics:
                v = e.mimics.val.get("n", 0)
                e.a.deactivate_mimic_state(self_state="mim", task=self.tasks[0])
                e.rec_mim(v)
                e.mimics = None

    def value(self, e, s, v, o):
        if s == "n":
            return v
        if s == "un":
            return None if v == 0 else ["x"] * v
        if s == "l":
            return [v, [o["w"]]] if v else []
        if s == "d":
            return {f"k{j}": None if j == o["w"] else [o["w"]] for j in (range(v) if o["w"] % 2 else reversed(range(v)))}
        if s == "dc":
            return Pair(v, {"in": o["w"]} if o["w"] < 3 else None, [v]) if not o["peek"] else None
        if s in ("lin", "sh"):
            return float(v)
        if s == "ploc" and self.plan["none"] and v == 0:
            return None
        return self.place(e.i, v)

    def active(self, e, s, op, o):
        a, env, ctx = e.a, self.env, self.ctx
        task = self.tasks[o["task"]]
        geo = s == "loc" and self.plan["geo"]
        if op == "read":
            got = getattr(a, s)
            if geo:
                if e.is_on("loc"):
                    e.geo_now = got
                    e.hist_geo()
                return
            want = e.sample(s)
            ctx.check(same(got, want), "read", lambda: f"{s} read {got!r}, expected {want!r} at {env.now}")
            self.kinds.add(s)
            return
        if s == "lin" and e.busy_task:
            return
        if op == "act":
            if s == "sh":
                if task in e.on["sh"]:
                    return
                a.activate_state(state="sh", task=task, rate=o["r"])
                e.activated("sh", o["r"], task)
            elif e.is_on(s):
                return
            elif s == "lin":
                a.activate_linear_state(state="lin", rate=o["r"], task=task)
                e.activated("lin", o["r"])
                e.owner_lin = task
            else:
                sp = abs(o["r"]) + 1
                a.activate_location_state(state="loc", speed=sp, waypoints=[self.target(e.i)], task=task)
                e.activated("loc", sp)
                e.owner_loc = task
            ctx.cover(f"on-{s}")
            self.kinds.add(s)
        else:
            if not e.is_on(s):
                return
            if s == "sh":
                if task not in e.on["sh"]:
                    return
                a.deactivate_state(state="sh", task=task)
                e.deactivating("sh", task)
            else:
                if geo:
                    e.geo_now = a.loc if o["peek"] else None
                    if o["peek"]:
                        e.hist_geo()
                a.deactivate_state(state=s, task=getattr(e, f"owner_{s}"))
                if geo:
                    e.val["loc"] = e.geo_now = a.loc
                    e.hist_geo()
                    e.on["loc"] = False
                    e.switch("loc", ActiveStatus.deactivating)
                else:
                    e.deactivating(s)

    # -- judging
    def verify(self):
        ctx, env = self.ctx, self.env
        for e in self.exp:
            if e is None:
                continue
            got = e.a._state_histories
            names = {n for n in got if got[n]} | {n for n in e.hist if e.hist[n]}
            for n in sorted(names):
                g, x = got.get(n, []), e.hist.get(n, [])
                base = n.split("_")[0]
                if base in ACTIVE:
                    g, x = collapse(g), collapse(x)
                ctx.check([t for t, _ in g] == sorted(t for t, _ in g), "order", lambda: f"{e.a.name}.{n}: {g}")
                ok = len(g) == len(x) and all(p[0] == q[0] and same(p[1], q[1]) for p, q in zip(g, x))
                ctx.check(ok, f"history:{base.split('.')[0]}", lambda: f"{e.spec['kind']} {e.a.name}.{n} at {env.now}:\n recorded {g}\n assigned {x}")
            logs = [x for x in e.a.log() if x[1].startswith("note") or "clone" in x[1]]
            ctx.check(logs == e.logs, "log", lambda: f"{logs} vs {e.logs}")
            for key, hist in e.res.items():
                r = e.a.ms[key[3:]] if key.startswith("ms.") else getattr(e.a, key)
                ctx.check(list(r._quantities) == hist, "quantities", lambda: f"{key}: {r._quantities} vs {hist}")
        got = get_recorded_data()
        ctx.check(list(got) == self.data, "data", lambda: f"{got} vs {self.data}")
        self.tables()

    def rows(self, skip, static):
        """The table, from the histories by the rules of the documentation."""
        out, locs = [], []
        for e in self.exp:
            if e is None:
                continue
            a, name, kind = e.a, e.a.name, type(e.a).__name__
            for s, h in a._state_histories.items():
                if s not in a.states and "." not in s:
                    continue  # recording functions
                if "." in s:
                    out += [(name, kind, s, t, v, None) for t, v in h]
                    continue
                act = s in ACTIVE
                status = "inactive" if act else None
                entries = []
                for t, v in h:
                    if isinstance(v, ActiveStatus):
                        entries[-1][2] = v.name
                        status = "active" if v is ActiveStatus.activating else "inactive"
                    else:
                        entries.append([t, v, status])
                # a plain state is one of locations once it had one
                place = s == "loc" or s == "ploc" and any(v is not None for v in [v for _, v in h] + [a.ploc])
                for t, v, status in entries:
                    if place:
                        if v is not None:
                            f = math.degrees if self.plan["geo"] and v.in_radians else float
                            xyz = (f(v.lat), f(v.lon), v.alt) if self.plan["geo"] else (v.x, v.y, v.z)
                            locs.append((name, kind, s, t) + xyz + (status,))
                        if not skip:
                            out.append((name, kind, s, t, v, status))
                    elif isinstance(v, dict):
                        out += [(name, kind, f"{s}.{k}", t, w, status) for k, w in v.items()]
                    elif isinstance(v, Pair):
                        out += [(name, kind, f"{s}.{k}", t, getattr(v, k), status) for k in ("a", "b", "c")]
                    else:
                        out.append((name, kind, s, t, v, status))
            for key, h in e.res.items():
                for t, v in h:
                    out += [(name, kind, f"{key}.{k}", t, x, None) for k, x in v.items()] if isinstance(v, dict) else [(name, kind, key, t, v, None)]
            if static:
                rec = self.plan["rec"]
                for s in ["n", "l", "d", "dc", "un"] + (["lin", "sh"] if e.mover else []) + ["q", "plainst"] + (["nlin"] if e.mover else []):
                    if not rec.get(s, False) and not (s == "un" and s not in e.objs):
                        out.append((name, kind, s, 0.0, e.sample(s) if s in ACTIVE else getattr(a, s), "Last Seen"))
                out.append((name, kind, "nodict.x", 0.0, 1, "Last Seen"))
                out.append((name, kind, "ms.p1", 0.0, a.ms["p1"], "Last Seen"))
                if not any(s.startswith("kd.") for s in a._state_histories):
                    out += [(name, kind, f"kd.{k}", 0.0, v, "Last Seen") for k, v in e.kd.items()]
                if not rec["kp"]:
                    out.append((name, kind, "kp", 0.0, Props(*e.kp), "Last Seen"))
                if not skip and e.mover:
                    for s in ("loc", "ploc"):
                        if not rec[s]:
                            out.append((name, kind, s, 0.0, getattr(a, s), "Last Seen"))
        for r in self.lone:
            out += [(str(r.name), type(r).__name__, "Resource", t, v, None) for t, v in self.lone_hist[str(r.name)]]
        return out, locs

    def tables(self):
        ctx = self.ctx
        self.exported += 1
        for skip in (True, False):
            for static in (False, True):
                if static and self.plan["geo"] and not self.plan["rec"]["loc"] and not skip:
                    continue
                got, cols = create_table(skip_locations=skip, save_static=static)
                ctx.check(list(cols) == ["Entity Name", "Entity Type", "State Name", "Time", "Value", "Activation Status"], "columns", cols)
                want, _ = self.rows(skip, static)
                self.compare("table", got, want, (skip, static))
        got, cols = create_location_table()
        _, want = self.rows(True, False)
        self.compare("locations", got, want, "")
        xyz = ["Lat", "Lon", "Alt"] if self.plan["geo"] and want else ["X", "Y", "Z"]
        ctx.check(list(cols) == ["Entity Name", "Entity Type", "State Name", "Time"] + xyz + ["Activation Status"], "columns", lambda: f"{cols} for {want[:1]}")

    def compare(self, what, got, want, opt):
        def key(r):
            return tuple(repr(round(float(x), 6) + 0.0) if isinstance(x, (int, float)) else repr(x) for x in r)
        # without its location at the moment, a plain state isn't known to be a location
        got, want = ([r for r in x if not (r[2] == "ploc" and r[4] is None and r[-1] == "Last Seen")] for x in (got, want))
        g, w = Counter(map(key, got)), Counter(map(key, want))
        self.ctx.check(g == w, what, lambda: f"{opt} at {self.env.now}: missing {list((w - g).items())[:4]} extra {list((g - w).items())[:4]}")
        last = {}
        twins = Counter(e.a.name for e in self.exp if e)
        for r in got:
            if r[-1] == "Last Seen" or twins[r[0]] > 1:
                continue
            self.ctx.check(last.get(r[:3], r[3]) <= r[3], "row-order", lambda: f"{r} after {last[r[:3]]}")
            last[r[:3]] = r[3]


def same(a, b):
    if isinstance(a, float) and isinstance(b, (int, float)):
        return close(a, b, 1e-9)
    if isinstance(a, UP.CartesianLocation) and isinstance(b, UP.CartesianLocation):
        return all(close(p, q, 1e-6) for p, q in zip((a.x, a.y, a.z), (b.x, b.y, b.z)))
    try:
        return a == b
    except ValueError:  # locations refuse other things
        return False


def collapse(h):
    out = []
    for e in h:
        if len(out) > 1 and out[-1][1] is ActiveStatus.activating and same(out[-2][1], e[1]) and e[0] == out[-1][0] == out[-2][0]:
            continue  # read in the instant it was activated
        if not out or out[-1][0] != e[0] or not same(out[-1][1], e[1]):
            out.append(e)
    return out


def _hist_geo(self):
    self.assigned("loc", self.geo_now)


Expect.hist_geo = _hist_geo


def run(plan, ctx):
    kw = {}
    with ctx.context(**kw) as env:
        if plan["geo"]:
            UP.add_stage_variable("stage_model", Spherical)
            UP.add_stage_variable("distance_units", "km")
            UP.add_stage_variable("altitude_units", "m")
            UP.add_stage_variable("intersection_model", None)
        if plan["motion"]:
            UP.add_stage_variable("motion_manager", UP.SensorMotionManager(None))
        w = World(plan, ctx, env)

        def create(i):
            w.exp[i] = Expect(w, plan["actors"][i], i)
        for i, spec in enumerate(plan["actors"]):
            if spec["t"]:
                at(env, spec["t"], lambda i=i: create(i), 0, 0)
            else:
                create(i)
        w.verify()
        for o in plan["ops"]:
            at(env, o["t"], lambda o=o: w.do(o), 0, 1)

        def interrupt(f):
            e = w.exp[f["k"]] if f["k"] < len(w.exp) else None
            if e and e.busy_task and getattr(e, "run_proc", None) is not None and e.run_proc.is_alive:
                e.run_proc.interrupt("fault")
                ctx.fault("interrupt")
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: interrupt(f), 1, 1)
        ctx.drive(env, until=plan["end"])
        w.verify()
        ctx.nontrivial = len(w.kinds) >= 3
        ctx.log(env.now, sorted(w.kinds))
