"""C26: state declarations are enforced on every assignment, for every actor."""
from dataclasses import dataclass, field

import simpy
import upstage_des.api as UP
from upstage_des.base import UpstageError

from dst.core import at

ID = "C26"
RUNS = {"quick": 43000, "thorough": 400000}
SHRINK = ["ops", "actors", "decls", "given", "levels"]
RULE = ("a generated hierarchy of 1-4 actor classes (possibly diamond-shaped) declares 1-10 states of every kind with "
        "generated types, defaults, factories, frozen, no_init and None allowances; 1-5 actors are made with right, missing, "
        "unknown, forbidden and badly typed values; tasks and processes then make up to 40 good and bad assignments (whole "
        "states, keys, attributes, resources, while active, mimicked, watched by a nucleus, recorded). Every acceptance and "
        "refusal, every actor's value after it, all histories and all watchers are compared with a reference interpretation "
        "of the declarations. Non-trivial: an actor was made, and an assignment was refused and one accepted.")
REAL = ["upstage_des states, state proxies, actor construction, resources, nucleus, mimic states; simpy"]
STUB = ["none"]
ASSUME = ["a mutable default given as a value is shared, as documented; factories are per actor",
          "reading an active state assigns it: active states are declared with types that admit their values",
          "keys of a multi-store state may be reassigned with resources of the declared types"]


class Animal:
    pass


class Cat(Animal):
    pass


@dataclass
class Base:
    a: int
    b: float = 0.0


@dataclass
class Sub(Base):
    c: list = field(default_factory=list)
    d: "str" = "x"
    e: "int | None" = None


@dataclass
class Other:
    a: int = 0


class MyStore(UP.SelfMonitoringStore):
    pass


TYPES = {"any": None, "int": int, "float": (float,), "num": (int, float), "str": str, "list": list, "animal": Animal, "optint": (int, type(None)), "bool": bool}
VALS = ["i", "i", "z", "f", "s", "e", "none", "list", "cat", "true", "loc"]


def value(v, n):
    return {"i": n, "z": 0, "f": n + 0.5, "s": f"s{n}", "e": "", "none": None, "list": [n], "cat": Cat(), "true": bool(n % 2),
            "loc": UP.CartesianLocation(n, 0)}[v]


GOOD = {"any": VALS, "int": ["i", "z", "true"], "float": ["f"], "num": ["i", "f", "z"], "str": ["s", "e"], "list": ["list"], "animal": ["cat"],
        "optint": ["i", "none"], "bool": ["true"]}


def gen_decl(rng, k):
    kind = rng.choice(["plain"] * 8 + ["linear", "linear", "detect", "place", "res", "res", "comm", "dict", "dict", "dc", "dc", "multi"])
    d = dict(name=f"x{k}", kind=kind, rec=rng.random() < 0.6, dup=rng.random() < 0.2)
    if kind == "plain":
        d["types"] = t = rng.choice(list(TYPES))
        d["default"] = rng.choice([None, None, "good", "good", "factory", "factory", "nonefactory"] + ["bad", "badfactory"] * (rng.random() < 0.15))
        d["dv"] = rng.choice([g for g in GOOD[t] if g not in ("none",)] or ["i"])
        d["bv"] = rng.choice(VALS)
        d["frozen"] = rng.random() < 0.3
        d["no_init"] = rng.random() < 0.15 and d["default"] is not None
        d["none_ok"] = rng.random() < 0.2
    elif kind == "linear":
        d["types"] = rng.choice(["any", "num"])
        d["default"] = rng.choice([None, "good"])
    elif kind == "detect":
        d["default"] = "good"
    elif kind in ("res", "comm"):
        d["default"] = rng.choice([None, "Store", "Container", "MyStore"]) if kind == "res" else rng.choice([None, "MyStore"])
        d["valid"] = rng.choice([None, None, "Store", "Container", "both"]) if kind == "res" else None
        d["kw"] = rng.choice([None, {"capacity": 7}])
        d["modes"] = rng.choice(["uhf", ["uhf", "vhf"], None])
    elif kind == "dict":
        d["types"] = rng.choice(["any", "int", "num", "str", "optint"])
    elif kind == "dc":
        d["valid"] = rng.choice([None, "Base", "Sub"])
    elif kind == "multi":
        d["default"] = rng.choice([None, "Store", "MyStore"])
        d["valid"] = rng.choice([None, None, "Store", "both"])
        d["kw"] = rng.choice([None, {"capacity": 5}])
    return d


def gen_given(rng, d, wild):
    """What an actor is made with for one state: None (nothing) or a description."""
    bad = rng.random() < wild
    k = d["kind"]
    if k == "plain":
        if d["no_init"] and not bad:
            return None
        if d["no_init"] and rng.random() < 0.5:
            return d["dv"]  # may equal the default: it is refused all the same
        if d["default"] and rng.random() < 0.5:
            return None
        if d["none_ok"] and rng.random() < 0.5:
            return None
        return rng.choice(VALS) if bad else rng.choice(GOOD[d["types"]])
    if k == "linear":
        return None if d["default"] and rng.random() < 0.5 else rng.choice(VALS) if bad and d["types"] == "num" else rng.choice(["i", "f"])
    if k == "detect":
        return rng.choice([None, None, "true", "i" if bad else "true"])
    if k == "place":
        return rng.choice(VALS) if bad else "loc"
    if k in ("res", "comm"):
        if d["default"] and rng.random() < 0.4:
            return None
        g = dict(kind=rng.choice([None, None, "Store", "Container", "MyStore", "int", "str"] if bad else [None, None, d["valid"] if d["valid"] in ("Store", "Container") else "Store" if k == "res" else "MyStore"]),
                 shared=rng.random() < 0.4)
        if rng.random() < 0.5:
            g["capacity"] = rng.choice([3, 9])
        if bad and rng.random() < 0.3:
            g["bogus"] = 1
        if rng.random() < 0.2:
            g = dict(obj=rng.choice(["Store", "Container", "MyStore", "number"] if bad else [d["valid"] if d["valid"] in ("Store", "Container") else "MyStore"]))
        if k == "comm" and "obj" not in g and rng.random() < 0.6:
            g["modes"] = rng.choice(["uhf", ["a", "b"], "x"] + ([[1, "a"]] if bad else []))
        return g
    if k == "dict":
        return dict(keys=[[f"k{j}", rng.choice(VALS) if bad else rng.choice(GOOD[d["types"]])] for j in range(rng.randint(0, 3))])
    if k == "dc":
        return rng.choice(["Base", "Sub", "Other", "number", "class"]) if bad else d["valid"] or rng.choice(["Base", "Sub"])
    if k == "multi":
        if rng.random() < 0.2 and d["default"]:
            return dict(names=["p", "q"])
        return dict(multi=[[n, dict(kind=rng.choice(["int", "Container", None]) if bad else rng.choice([None if d["default"] else "Store", "Store"]),
                                 **({"capacity": rng.choice([3, 9])} if rng.random() < 0.3 else {}))
                            if rng.random() < 0.7 else dict(obj=rng.choice(["number", "Container"] if bad else ["Store"]))] for n in ("p", "q")[:rng.randint(0, 2)]])


def gen(rng, tier):
    big = tier == "thorough" and rng.random() < 0.4
    n = rng.randint(1, 14 if big else 10)
    decls = [gen_decl(rng, k) for k in range(n)]
    for d in decls:
        d["level"] = rng.randint(0, 3)
    wild = rng.choice([0.0, 0.0, 0.0, 0.05, 0.3])
    actors = []
    for _ in range(rng.randint(1, 5)):
        given = []
        for d in decls:
            g = gen_given(rng, d, wild)
            if g is not None or (rng.random() < 0.02):
                given.append([d["name"], g if g is not None else "i"])
        if rng.random() < 0.05 + wild / 4 and given:
            given.pop(rng.randrange(len(given)))
        if rng.random() < wild / 3:
            given.append(["zzz", "i"])
        rng.shuffle(given)
        actors.append(dict(level=rng.choice([3, 3, 3, 2, 1]), given=given, t=rng.choice([0, 0, 0, 2]), nuc=rng.random() < 0.4))
    ops = []
    for _ in range(rng.randint(2, 40 if big else 22)):
        d = rng.choice(decls)
        ops.append(dict(t=rng.choice([0, 0, 1, 1, 2, 3, 4, 5]) + rng.choice([0, 0, 0.25]), a=rng.randrange(len(actors)), s=d["name"],
                        v=rng.choice(VALS) if rng.random() < 0.5 else rng.choice(GOOD.get(d.get("types"), VALS)),
                        how=rng.choice(["set", "set", "set", "key", "key", "setdefault", "attr", "attr", "inner", "same"]),
                        key=rng.choice(["k0", "k1", "k9", "a", "b", "c", "d", "e", "zip", "p"]), intask=rng.random() < 0.4, mut=rng.random() < 0.2))
    for _ in range(rng.randint(0, 4)):
        ops.append(dict(t=rng.choice([0, 1, 2, 3]), a=rng.randrange(len(actors)), s=rng.choice(decls)["name"], v="i", how=rng.choice(["activate", "mimic", "stop"]),
                        key="", intask=True, mut=False, b=rng.randrange(len(actors))))
    return dict(decls=decls, levels=rng.choice(["line", "line", "diamond"]), actors=actors, ops=ops)


KINDS = {"Store": simpy.Store, "Container": simpy.Container, "MyStore": MyStore, "int": int, "str": "Store"}
VALID = {None: (simpy.Store, simpy.Container), "Store": simpy.Store, "Container": simpy.Container, "both": (simpy.Store, simpy.Container)}
REFUSED = (UpstageError, TypeError, ValueError, AttributeError)
UNSET = object()


def mine(v, types):
    return types is None or isinstance(v, types)


class Job(UP.Task):
    """Performs single operations when told to."""

    def task(self, *, actor):
        w = self.w
        while True:
            box = w.inbox.setdefault(id(actor), [])
            if box:
                w.op(box.pop(0), self)
            else:
                w.bell[id(actor)] = ev = UP.Event()
                yield ev

    def on_interrupt(self, *, actor, cause):
        return self.INTERRUPT.IGNORE


class Watch(UP.Task):
    def task(self, *, actor):
        yield UP.Event()

    def on_interrupt(self, *, actor, cause):
        self.w.noticed.setdefault(id(actor), set()).add(getattr(cause, "state_name", None))
        return self.INTERRUPT.IGNORE


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.n = 10
        self.calls = {}
        self.decl = {d["name"]: d for d in plan["decls"]}
        self.defaults = {}
        self.shared = {}
        self.actors, self.model, self.lin = {}, {}, {}
        self.inbox, self.bell, self.noticed, self.touched = {}, {}, {}, {}
        self.accepted = self.refused = 0
        self.mimics, self.sources = {}, set()
        self.jobs = {}
        self.classes = self.declare()
        for k, a in enumerate(plan["actors"]):
            at(env, a["t"], lambda k=k, a=a: self.make(k, a), 0, 0)
        for o in plan["ops"]:
            at(env, o["t"], lambda o=o: self.give(o))
        env._hooks.append(self.settled)

    def next(self):
        self.n += 1
        return self.n

    # -- declarations
    def declare(self):
        levels = [[d for d in self.plan["decls"] if d["level"] == k] for k in range(4)]
        bodies = [{d["name"]: self.state(d) for d in ds} for ds in levels]
        c0 = type("L0", (UP.Actor,), bodies[0])
        c1 = type("L1", (c0,), bodies[1])
        if self.plan["levels"] == "diamond":
            c2 = type("L2", (c0,), bodies[2])
            c3 = type("L3", (c1, c2), bodies[3])
            self.member = {1: {0, 1}, 2: {0, 2}, 3: {0, 1, 2, 3}}
        else:
            c2 = type("L2", (c1,), bodies[2])
            c3 = type("L3", (c2,), bodies[3])
            self.member = {1: {0, 1}, 2: {0, 1, 2}, 3: {0, 1, 2, 3}}
        if self.plan["decls"] and levels[0]:
            n = levels[0][0]["name"]
            try:
                type("Twice", (c1,), {n: UP.State(default=1)})
                self.ctx.violate("duplicate-state", f"{n} declared twice in one hierarchy")
            except ValueError:
                self.ctx.fault("duplicate-name")
        for kw in (dict(default=1, default_factory=int), dict(no_init=True)):
            try:
                UP.State(**kw)
                self.ctx.violate("bad-declaration", f"{kw} accepted")
            except UpstageError:
                pass
        return {1: c1, 2: c2, 3: c3}

    def state(self, d):
        k, rec = d["kind"], dict(recording=d["rec"], record_duplicates=d["dup"])
        if k == "plain":
            kw = dict(frozen=d["frozen"], no_init=d["no_init"], valid_types=TYPES[d["types"]], allow_none_default=d["none_ok"], **rec)
            how = d["default"]
            if how in ("good", "bad"):
                v = value(d["dv"] if how == "good" else d["bv"], 3)
                if v is None:
                    v = 3
                self.defaults[d["name"]] = v
                kw["default"] = v
            elif how:
                def make(d=d, how=how):
                    self.calls.setdefault(d["name"], []).append(v := {"factory": lambda: value(d["dv"], self.next()), "nonefactory": lambda: None,
                                                                      "badfactory": lambda: value(d["bv"], 4)}[how]())
                    return v
                kw["default_factory"] = make
            return UP.State(**kw)
        if k == "linear":
            return UP.LinearChangingState(default=2.5 if d["default"] else None, valid_types=TYPES[d["types"]], **rec)
        if k == "detect":
            return UP.DetectabilityState(default=False, recording=d["rec"])
        if k == "place":
            return UP.CartesianLocationChangingState(recording=d["rec"])
        if k == "res":
            return UP.ResourceState(default=KINDS.get(d["default"]), valid_types=None if d["valid"] is None else VALID[d["valid"]], default_kwargs=d["kw"])
        if k == "comm":
            return UP.CommunicationStore(modes=d["modes"], default=KINDS.get(d["default"]))
        if k == "dict":
            return UP.DictionaryState(valid_types=TYPES[d["types"]], **rec)
        if k == "dc":
            return UP.DataclassState(valid_types={None: None, "Base": Base, "Sub": Sub}[d["valid"]], **rec)
        return UP.MultiStoreState(default=KINDS.get(d["default"]), valid_types=None if d["valid"] is None else VALID[d["valid"]], default_kwargs=d["kw"])

    # -- making actors
    def resource(self, d, g, obj_ok=True):
        """The argument for a resource, and whether it is acceptable; its kind and capacity."""
        valid = VALID[d["valid"]] if d["kind"] != "comm" else simpy.Store
        if "obj" in g:
            if g["obj"] == "number":
                return 5, False, None, None
            o = KINDS[g["obj"]](self.env)
            return o, isinstance(o, valid), o, None
        arg = {}
        if g.get("kind"):
            arg["kind"] = KINDS[g["kind"]]
        cap = g.get("capacity")
        for x in ("capacity", "bogus"):
            if x in g:
                arg[x] = g[x]
        kind = arg.get("kind", KINDS.get(d["default"]) or (UP.SelfMonitoringStore if d["kind"] == "comm" else None))
        ok = isinstance(kind, type) and issubclass(kind, valid) and "bogus" not in g
        if cap is None and d["kind"] != "comm":
            cap = (d["kw"] or {}).get("capacity")
        return arg, ok, kind, cap if cap is not None else float("inf")

    def make(self, k, spec):
        mine_levels = self.member[spec["level"]]
        decls = [d for d in self.plan["decls"] if d["level"] in mine_levels]
        names = {d["name"] for d in decls}
        given, why, model = {}, [], {}
        for name, g in spec["given"]:
            d = self.decl.get(name)
            if d is None or name not in names:
                if name == "zzz" or self.plan["actors"][k]["t"] == 2 or k % 3 == 0:
                    given[name] = 1
                    why.append(f"unknown {name}")
                continue
            if d["kind"] in ("res", "comm") and not isinstance(g, dict) or d["kind"] == "multi" and not isinstance(g, dict) or d["kind"] == "dict" and not isinstance(g, dict):
                continue
            v, ok, m = self.argument(d, g)
            given[name] = v
            model[name] = m
            if not ok:
                why.append(f"{name}={v!r}")
        before = {n: len(c) for n, c in self.calls.items()}
        expected_calls = []
        for d in decls:
            n = d["name"]
            if n in given:
                continue
            k2 = d["kind"]
            how = d.get("default")
            if k2 == "plain":
                if how is None:
                    model[n] = UNSET
                    if not d["none_ok"]:
                        why.append(f"missing {n}")
                elif how in ("good", "bad"):
                    model[n] = ("is", self.defaults[n])
                    if not mine(self.defaults[n], TYPES[d["types"]]):
                        why.append(f"bad default {n}")
                else:
                    expected_calls.append(n)
                    model[n] = ("made", n)
                    v = {"nonefactory": lambda: None, "badfactory": lambda: value(d["bv"], 4), "factory": lambda: value(d["dv"], 4)}[how]()
                    if not mine(v, TYPES[d["types"]]):
                        why.append(f"bad factory {n}")
            elif k2 == "linear":
                model[n] = ("is", 2.5)
                if not how:
                    why.append(f"missing {n}")
            elif k2 == "detect":
                model[n] = ("is", False)
            elif k2 == "res" and how or k2 == "comm":
                _, ok, kind, cap = self.resource(d, {})
                model[n] = ("res", kind, cap, None)
                if not ok or (k2 == "comm" and d["modes"] is None):
                    why.append(f"bad default {n}")
            else:
                why.append(f"missing {n}")
        try:
            a = self.classes[spec["level"]](name=f"a{k}", **given)
        except REFUSED as e:
            self.ctx.check(why, "refused-actor", lambda: f"actor {k} with {given} refused: {e!r}")
            self.ctx.fault("actor-refused")
            for w in why:
                self.ctx.cover("refused-" + w.split()[0].split("=")[0].rstrip("0123456789"))
            return
        self.ctx.check(not why, "accepted-actor", lambda: f"actor {k} should be refused: {why}")
        for n, c in self.calls.items():
            want = before.get(n, 0) + (n in expected_calls)
            self.ctx.check(len(c) == want, "factory-calls", lambda: f"{n} made {len(c) - before.get(n, 0)} defaults")
        self.ctx.cover("actor-made")
        self.actors[k] = a
        self.model[k] = {}
        self.lin[k] = {}
        for n, m in model.items():
            self.model[k][n] = self.adopt(k, a, n, m)
        for n, v in given.items():
            if isinstance(v, dict):
                d = self.decl[n]
                if d["kind"] == "dict":
                    v.clear()       # the caller's own dictionary
        job = Job()
        job.w = self
        self.jobs[k] = job
        job.run(actor=a)
        if spec["nuc"]:
            # (reading a changing state tells its watchers, so those are not watched here)
            names = sorted(n for n in names if self.decl[n]["kind"] in ("plain", "detect", "place", "dict", "dc"))
            if names:
                net = UP.TaskNetworkFactory.from_single_looping("watch", type("Watch", (Watch,), {"w": self})).make_network()
                a.add_task_network(net)
                nuc = UP.TaskNetworkNucleus(actor=a)
                nuc.add_network("watch", names)
                a.start_network_loop("watch", "Watch")
        self.compare("made")

    def argument(self, d, g):
        """(value to give, is it acceptable, model of it)."""
        k = d["kind"]
        if k in ("plain", "linear", "detect", "place"):
            v = value(g, self.next())
            types = {"plain": lambda: TYPES[d["types"]], "linear": lambda: TYPES[d["types"]], "detect": lambda: bool, "place": lambda: UP.CartesianLocation}[k]()
            return v, mine(v, types) and not d.get("no_init"), ("is", v)
        if k in ("res", "comm"):
            arg, ok, kind, cap = self.resource(d, g)
            if "obj" in g:
                return arg, ok and (k != "comm" or d["modes"] is not None), ("is", arg)
            modes = d["modes"]
            if "modes" in g:
                arg["modes"] = modes = g["modes"]
            if k == "comm":
                ok = ok and modes is not None and all(isinstance(m, str) for m in ([modes] if isinstance(modes, str) else modes))
            if g.get("shared"):
                # one configuration used for several actors
                arg = self.shared.setdefault((d["name"], repr(sorted(g.items(), key=str))), arg)
                self.ctx.cover("shared-config")
            self.configs = getattr(self, "configs", [])
            self.configs.append((arg, dict(arg)))
            return arg, ok, ("res", kind, cap, {modes} if isinstance(modes, str) else set(modes) if k == "comm" and ok else None)
        if k == "dict":
            v = {n: value(x, self.next()) for n, x in g["keys"]}
            return v, all(mine(x, TYPES[d["types"]]) for x in v.values()), ("dict", dict(v))
        if k == "dc":
            v = {"Base": lambda: Base(1, 2.0), "Sub": lambda: Sub(1), "Other": Other, "number": lambda: 5, "class": lambda: Base, "i": lambda: 5}[g]()
            return v, isinstance(v, {None: (Base, Sub, Other), "Base": Base, "Sub": Sub}[d["valid"]]), ("dc", v)
        if "names" in g:
            return list(g["names"]), d["default"] is not None and issubclass(KINDS[d["default"]], VALID[d["valid"]]), ("multi", {n: ("res", KINDS[d["default"]], (d["kw"] or {}).get("capacity", float("inf")), None) for n in g["names"]})
        v, ok, m = {}, True, {}
        for n, x in g["multi"]:
            v[n], good, kind, cap = self.resource(d, x)
            ok = ok and good
            m[n] = ("is", v[n]) if "obj" in x else ("res", kind, cap, None)
        return v, ok, ("multi", m)

    def own(self, k, n, what, m):
        """A resource made for this actor alone, of the declared kind."""
        if m[0] == "is":
            self.ctx.check(what is m[1], "resource", f"actor {k} {n}: not the given object")
            return what
        _, kind, cap, modes = m
        self.ctx.check(type(what) is kind and what.capacity == cap, "resource", lambda: f"actor {k} {n}: {what} capacity {what.capacity}, declared {kind} {cap}")
        for j, other in self.model.items():
            for v in other.values():
                for x in (v.values() if isinstance(v, dict) else [v]):
                    self.ctx.check(x is not what, "shared-resource", f"actors {j} and {k} share {n}")
        if modes is not None:
            got = self.actors[k].__dict__.get(f"_{n}__mode_names_")
            self.ctx.check(got is None or set(got) == modes, "modes", f"actor {k} {n}: modes {got} instead of {modes}")
        return what

    def adopt(self, k, a, n, m):
        if m is UNSET:
            return UNSET
        if m[0] == "is":
            return m[1]
        if m[0] == "made":
            v = self.calls[n][-1]
            self.ctx.check(v is None or isinstance(v, (int, float, str)) or all(v is not c for c in self.calls[n][:-1]), "factory", f"{n}")
            return v
        if m[0] == "res":
            return self.own(k, n, getattr(a, n), m)
        if m[0] == "dict":
            return dict(m[1])
        if m[0] == "dc":
            return {f: getattr(m[1], f) for f in m[1].__dataclass_fields__}
        got = getattr(a, n)
        self.ctx.check(set(got.keys()) == set(m[1]), "multi", f"{list(got.keys())}")
        return {x: self.own(k, f"{n}.{x}", got[x], mm) for x, mm in m[1].items()}

    # -- comparing
    def now_value(self, k, n):
        v = self.model[k][n]
        rate = self.lin[k].get(n)
        return v if rate is None else v + rate[1] * (self.env.now - rate[0])

    def compare(self, why):
        ctx = self.ctx
        for k, a in self.actors.items():
            for n, want in self.model[k].items():
                if (k, n) in self.mimics:
                    continue
                d = self.decl[n]
                if want is UNSET:
                    try:
                        v = getattr(a, n)
                        ctx.violate("unset", f"actor {k} {n} reads {v} after {why}")
                    except UpstageError:
                        continue
                if d["kind"] in ("dict", "multi"):
                    got = getattr(a, n).raw_object()
                    ctx.check(got.keys() == want.keys() and all(got[x] is want[x] for x in want), "value", lambda: f"actor {k} {n}: {got} instead of {want} after {why}")
                    px = getattr(a, n)
                    ctx.check(list(px) == list(want) and len(px) == len(want), "proxy", lambda: f"actor {k} {n}: {list(px)}")
                elif d["kind"] == "dc":
                    px = getattr(a, n)
                    ctx.check(all(getattr(px, f) is v for f, v in want.items()), "value", lambda: f"actor {k} {n}: {px} instead of {want} after {why}")
                    ctx.check(not hasattr(px.raw_object(), "zip"), "value", f"actor {k} {n} has an undeclared attribute after {why}")
                elif n in self.lin[k]:
                    got = getattr(a, n)
                    want = self.now_value(k, n)
                    ctx.check(abs(got - want) < 1e-9, "value", lambda: f"actor {k} {n}: {got} instead of {want} after {why}")
                else:
                    got = getattr(a, n)
                    ctx.check(got is want, "value", lambda: f"actor {k} {n}: {got!r} instead of {want!r} after {why}")
        for arg, was in getattr(self, "configs", ()):
            ctx.check(arg == was, "config", lambda: f"the caller's {was} became {arg}")

    def histories(self):
        return {k: {n: list(h) for n, h in a._state_histories.items()} for k, a in self.actors.items()}

    # -- operations
    def give(self, o):
        k = o["a"]
        if k not in self.actors or o["s"] not in self.model[k]:
            return
        if o["intask"]:
            a = self.actors[k]
            self.inbox.setdefault(id(a), []).append(o)
            ev = self.bell.pop(id(a), None)
            if ev is not None:
                ev.succeed()
        else:
            self.op(o, None)

    def op(self, o, task):
        k, n, how = o["a"], o["s"], o["how"]
        a, d = self.actors[k], self.decl[o["s"]]
        if how in ("activate", "stop", "mimic"):
            return self.special(o, a, d, task)
        if (k, n) in self.mimics:
            return
        self.compare("before")
        hist = self.histories()
        v = value(o["v"], self.next())
        kind = d["kind"]
        cur = self.model[k][n]
        todo, ok = None, None
        if kind in ("plain", "linear", "detect", "place"):
            if how == "same" and cur is not UNSET:
                v = self.now_value(k, n)
            types = {"detect": bool, "place": UP.CartesianLocation}.get(kind) or TYPES[d["types"]]
            if kind == "linear" and not isinstance(v, (int, float)) and mine(v, types):
                return      # an untyped linear state can be given anything, but not made to change
            ok = mine(v, types) and not (d.get("frozen") and cur is not UNSET)
            todo = lambda: setattr(a, n, v)  # noqa: E731
        elif kind in ("dict", "multi"):
            types = TYPES[d["types"]] if kind == "dict" else VALID[d["valid"]]
            if kind == "multi" and o["v"] in ("i", "list"):
                v = simpy.Store(self.env) if o["v"] == "list" else simpy.Container(self.env)
            if how in ("key", "inner"):
                ok = mine(v, types)
                todo = lambda: getattr(a, n).__setitem__(o["key"], v)  # noqa: E731
            elif how == "setdefault":
                ok = mine(v, types) or o["key"] in cur
                todo = lambda: getattr(a, n).setdefault(o["key"], v)  # noqa: E731
            else:
                ok = False
                todo = lambda: setattr(a, n, {"k0": v} if kind == "dict" else {"p": {}})  # noqa: E731
        elif kind == "dc":
            if how in ("attr", "key", "inner", "setdefault"):
                hints = {"a": int, "b": float, "c": list, "d": str, "e": int | None}
                fieldname = o["key"] if o["key"] in list(hints) + ["zip"] else "a"
                ok = fieldname in cur and isinstance(v, hints.get(fieldname, object))
                todo = lambda: setattr(getattr(a, n), fieldname, v)  # noqa: E731
            else:
                ok = False
                todo = lambda: setattr(a, n, Base(9))  # noqa: E731
        else:
            ok = False
            v = {"i": {}, "list": simpy.Store(self.env), "s": {"kind": simpy.Store}}.get(o["v"], cur)
            todo = lambda: setattr(a, n, v)  # noqa: E731
        what = f"actor {k} {n} {how} {o['key'] if kind in ('dict', 'dc', 'multi') else ''} {v!r} at {self.env.now}"
        self.ctx.log("op", k, n, how, ok)
        try:
            got = todo()
        except REFUSED as e:
            self.ctx.check(not ok, "refused", lambda: f"{what} refused: {e!r}")
            self.ctx.fault("refused-" + kind)
            self.refused += 1
            after = self.histories()
            for j in after:
                for s in after[j]:
                    # reading the changing states recorded them
                    h = hist[j].get(s, [])
                    if s in self.lin[j] or any(m[:2] == (j, s) for m in self.mimics.items()):
                        continue
                    self.ctx.check(len(after[j][s]) == len(h), "history-of-refused", lambda: f"{what}: history of actor {j} {s} went from {h[-2:]} to {after[j][s][-2:]}")
            self.compare("refused " + what)
            return
        self.ctx.check(ok, "accepted", what)
        self.accepted += 1
        self.ctx.cover("accepted-" + kind)
        self.touched.setdefault(id(a), set()).add(n)
        if kind in ("plain", "linear", "detect", "place"):
            self.model[k][n] = v
            if n in self.lin[k]:
                self.lin[k][n] = (self.env.now, self.lin[k][n][1])
        elif kind in ("dict", "multi"):
            if how == "setdefault":
                self.ctx.check(got is cur.get(o["key"], v), "setdefault", what)
                cur.setdefault(o["key"], v)
            else:
                cur[o["key"]] = v
        elif kind == "dc":
            cur[fieldname] = v
        self.compare("accepted " + what)

    def special(self, o, a, d, task):
        k, n = o["a"], o["s"]
        if o["how"] == "activate" and d["kind"] == "linear" and n not in self.lin[k] and (k, n) not in self.mimics and isinstance(self.model[k][n], (int, float)):
            a.activate_state(state=n, task=task, rate=1.5)
            self.lin[k][n] = (self.env.now, 1.5)
            self.ctx.cover("activated")
        elif o["how"] == "stop" and n in self.lin[k]:
            self.model[k][n] = self.now_value(k, n)
            a.deactivate_state(state=n, task=task)
            del self.lin[k][n]
            self.model[k][n] = getattr(a, n)
        elif o["how"] == "mimic" and d["kind"] == "plain" and not d["frozen"]:
            j = o["b"]
            if j == k or j not in self.actors or n not in self.model[j] or (k, n) in self.mimics or (j, n) in self.mimics or (k, n) in self.sources or self.plan["actors"][k]["nuc"] or self.model[j][n] is UNSET or self.model[k][n] is UNSET:
                return
            a.activate_mimic_state(self_state=n, mimic_state=n, mimic_actor=self.actors[j], task=task)
            self.mimics[(k, n)] = j
            self.sources.add((j, n))
            self.ctx.cover("mimicked")

    def settled(self):
        for k, a in self.actors.items():
            seen = self.noticed.pop(id(a), set())
            ok = self.touched.pop(id(a), set()) 
            self.ctx.check(seen <= ok | {None}, "watcher", lambda: f"t={self.env.now}: actor {k}'s network was told of {seen - ok}")
            for (j, n), src in self.mimics.items():
                if j == k:
                    got, want = getattr(a, n), self.model[src][n]
                    self.ctx.check(got is want, "mimic", lambda: f"actor {k} {n} mimics {got!r}, source is {want!r}")


def run(plan, ctx):
    with ctx.context() as env:
        w = World(plan, ctx, env)
        ctx.drive(env)
        w.compare("end")
        ctx.nontrivial = bool(w.actors) and w.accepted > 0 and w.refused > 0
