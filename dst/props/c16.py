"""C16: a sorted filter get takes the best matching item at that moment."""
from collections import Counter

import upstage_des.api as UP
from upstage_des.resources.monitoring import SelfMonitoringSortedFilterStore
from upstage_des.resources.sorted import SortedFilterStore

from dst.core import INF, at

ID = "C16"
RUNS = {"quick": 45000, "thorough": 900000}
SHRINK = ["ops", "faults", "pre"]
RULE = ("3-40 puts, plain gets and gets by tasks with generated filters, sort keys (numbers, tuples, negated, none) and "
        "directions on a sorted filter store of generated capacity, with plain, falsy and equal-but-different items, keys "
        "that change while items are stored, cancelled and interrupted requests, many in one instant. Whenever requests "
        "are served the choice is compared with a replay over the items stored at that moment, and the stored objects "
        "with the model's by identity. Non-trivial: a request chose among two or more matching items.")
REAL = ["upstage_des sorted filter stores, plain and self-monitoring, SortedFilterGet, tasks; simpy"]
STUB = ["none"]
ASSUME = ["between equal sort keys any item may be chosen; without a sorter the first stored matching item is (documented)"]


class Worker(UP.Actor):
    note = UP.State(default=0)


class Item:
    """Equal by kind, but a different thing with its own weight."""

    def __init__(self, n, kind, weight):
        self.n, self.kind, self.weight = n, kind, weight

    def __eq__(self, other):
        return isinstance(other, Item) and self.kind == other.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"<{self.n}:{self.kind},{self.weight}>"


FALSY = [0, "", None, (), 0.0, False]


def weight(x):
    return x.weight if isinstance(x, Item) else 0


def kind(x):
    return x.kind if isinstance(x, Item) else 0


FILTERS = {"all": lambda a: lambda x: True, "kind": lambda a: lambda x: kind(x) == a % 3, "odd": lambda a: lambda x: kind(x) % 2 == a % 2,
           "none": lambda a: lambda x: False, "plain": lambda a: lambda x: not isinstance(x, Item), "le": lambda a: lambda x: kind(x) <= a % 3,
           "truthy": lambda a: lambda x: 5 if kind(x) == a % 3 else ""}
SORTERS = {"none": None, "weight": lambda x: weight(x), "tuple": lambda x: (kind(x), -weight(x)), "neg": lambda x: -weight(x),
           "str": lambda x: str(kind(x)), "tup1": lambda x: (weight(x),), "tup3": lambda x: (kind(x) // 2, kind(x) % 2, weight(x)), "tup4": lambda x: (0, 0, 0, -weight(x)), "text": lambda x: f"{weight(x) + 10:09.3f}",
           "const": lambda x: 0}


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0])
    span = rng.choice([2, 6, 15])
    ops = []
    for i in range(rng.randint(3, 40)):
        op = rng.choice(["put"] * 5 + ["get"] * 3 + ["task", "cancel", "mutate"])
        ops.append(dict(op=op, t=grid * rng.randint(0, span), kind=rng.randint(0, 3), weight=rng.choice([0, 1, 2, 3, -1, 5]) if rng.random() < 0.7 else round(rng.random() * 4, 2),
                        falsy=rng.randrange(len(FALSY)) if rng.random() < 0.12 else None, filter=rng.choice(list(FILTERS)), sorter=rng.choice(list(SORTERS)),
                        arg=rng.randint(0, 5), rev=rng.random() < 0.35, k=rng.randint(0, 39), limit=rng.choice([None, None, 1.0, 2.0]),
                        depth=rng.choice([0, 0, 0, 1, 2]), prio=rng.choice([0, 1, 1, 2])))
    faults = [dict(t=grid * rng.randint(0, span), k=rng.randint(0, 9), ans=rng.choice("IRE"), depth=rng.choice([0, 1, 2]), prio=rng.choice([0, 1, 2]))
              for _ in range(rng.choice([0, 0, 2, 5]))]
    return dict(cap=rng.choice([None, None, None, 1, 2, 4]), mon=rng.random() < 0.4, ops=ops, faults=faults,
                pre=[dict(kind=rng.randint(0, 3), weight=rng.randint(0, 4)) for _ in range(rng.choice([0, 0, 3, 6]))])


class Request:
    def __init__(self, ev, o, up=None):
        self.ev, self.up = ev, up
        self.filter = FILTERS[o["filter"]](o["arg"])
        self.sorter, self.rev, self.o = SORTERS[o["sorter"]], o["rev"], o


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        cls = SelfMonitoringSortedFilterStore if plan["mon"] else SortedFilterStore
        self.box = cls(env) if plan["cap"] is None else cls(env, capacity=plan["cap"])
        self.items, self.waiting, self.putting, self.gets, self.tasks = [], [], [], [], []
        self.n = 0
        for p in plan["pre"][:plan["cap"]]:
            x = self.new(p)
            self.box.items.append(x)
            self.items.append(x)
        env._step_hooks.append(self.observe)
        env._hooks.append(self.instant)
        for o in plan["ops"]:
            at(env, o["t"], lambda o=o: self.do(o), o["depth"], o["prio"])
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: self.interrupt(f), f["depth"], f["prio"])

    def new(self, o):
        self.n += 1
        if o.get("falsy") is not None:
            return FALSY[o["falsy"]]
        return Item(self.n, o["kind"], o["weight"])

    # ---- the model follows what just happened
    def observe(self):
        ctx, env = self.ctx, self.env
        served = [r for r in self.waiting if r.ev.triggered]
        real = Counter(id(x) for x in self.box.items)
        for r in served:
            real[id(r.ev.value)] += 1
        for x in self.items:
            real[id(x)] -= 1
        for x in list(self.putting):
            if real[id(x)] > 0:
                real[id(x)] -= 1
                self.items.append(x)
                self.putting = [y for i, y in enumerate(self.putting) if i != next(j for j, z in enumerate(self.putting) if z is x)]
        wrong = {k: v for k, v in real.items() if v}
        ctx.check(not wrong, "conservation", lambda: f"at {env.now}: store holds {self.box.items}, served {[r.ev.value for r in served]}, expected from {self.items}")
        if not served:
            return
        for r in list(self.waiting):
            fit = [x for x in self.items if r.filter(x)]
            what = f"{r.o['filter']}({r.o['arg']}) by {r.o['sorter']}{' reversed' if r.rev else ''} at {env.now}"
            if not fit:
                ctx.check(not r.ev.triggered, "served-wrong", lambda: f"{what} got {r.ev.value!r} of {self.items}")
                continue
            ctx.check(r.ev.triggered, "order", lambda: f"{what} was passed over, {fit} match, others served: {[x.ev.value for x in served]}")
            got = r.ev.value
            ctx.check(any(x is got for x in fit), "filter", lambda: f"{what} got {got!r}, matching: {fit}")
            if r.sorter is None:
                ctx.check(got is fit[0], "first", lambda: f"{what} got {got!r}, matching: {fit}")
            else:
                best = (max if r.rev else min)(r.sorter(x) for x in fit)
                ctx.check(r.sorter(got) == best, "best", lambda: f"{what} got {got!r}, matching: {fit}")
            if len(fit) > 1:
                ctx.nontrivial = True
            j = next(j for j, x in enumerate(self.items) if x is got)
            del self.items[j]
            self.waiting.remove(r)
            r.item = got
            ctx.log(what, repr(got))

    def instant(self):
        self.observe()
        for r in self.waiting:
            fit = [x for x in self.items if r.filter(x)]
            self.ctx.check(not fit, "withheld", lambda: f"{r.o['filter']}({r.o['arg']}) still waits at the end of {self.env.now}, {fit} match")
        ids = [id(x) for x in self.box.items]
        self.ctx.check(sorted(ids) == sorted(id(x) for x in self.items), "contents", lambda: f"{self.box.items} instead of {self.items}")

    # ---- operations
    def do(self, o):
        self.observe()
        ctx, op = self.ctx, o["op"]
        if op == "put":
            x = self.new(o)
            self.putting.append(x)
            self.box.put(x)
            self.observe()
            if any(y is x for y in self.putting):
                ctx.fault("full")
        elif op == "get":
            kw = dict(filter=FILTERS[o["filter"]](o["arg"]), sorter=SORTERS[o["sorter"]], reverse=o["rev"])
            if o["filter"] == "all" and o["k"] % 2:
                del kw["filter"]
            r = Request(None, o)
            if o["k"] % 3:
                r.ev = self.box.get(**kw)
            else:
                r.up = UP.SortedFilterGet(self.box, **kw)
                r.ev = r.up.as_event()
            self.waiting.append(r)
            self.gets.append(r)
        elif op == "cancel" and self.gets:
            r = self.gets[o["k"] % len(self.gets)]
            if r in self.waiting or (r.up is not None and not r.ev.processed and not getattr(r, "gone", False)):
                ctx.fault("cancel")
                r.gone = True
                if r in self.waiting:
                    self.waiting.remove(r)
                else:
                    self.putting.append(r.item)
                    ctx.fault("cancel-granted")
                (r.up or r.ev).cancel()
        elif op == "mutate" and self.items:
            x = self.items[o["k"] % len(self.items)]
            if isinstance(x, Item):
                x.weight = o["weight"]
                ctx.fault("key-changed")
        elif op == "task":
            self.tasks.append(self.make_task(len(self.tasks), o)().run(actor=Worker(name=f"w{len(self.tasks)}")))
        self.observe()

    def interrupt(self, f):
        if self.tasks and self.tasks[f["k"] % len(self.tasks)].is_alive:
            self.tasks[f["k"] % len(self.tasks)].interrupt(cause=f["ans"])
            self.ctx.fault("interrupt-" + f["ans"])

    def make_task(self, i, o):
        w, env, ctx = self, self.env, self.ctx
        mine = []

        class T(UP.Task):
            def task(self, *, actor):
                w.observe()
                ev = UP.SortedFilterGet(w.box, FILTERS[o["filter"]](o["arg"]), SORTERS[o["sorter"]], o["rev"])
                r = Request(ev.as_event(), o, ev)
                w.waiting.append(r)
                w.observe()
                mine[:] = [r]
                if o["limit"] is None:
                    got = yield ev
                else:
                    yield UP.Any(ev, UP.Wait(o["limit"]))
                    w.observe()
                    if not ev.is_complete():
                        w.give_up(r)
                        ev.cancel()
                        mine.clear()
                        return
                    got = ev.get_value()
                mine.clear()
                ctx.check(got is r.item, "value", f"the task got {got!r}, served {r.item!r}")

            def on_interrupt(self, *, actor, cause):
                w.observe()
                if cause != "I" and mine:
                    w.give_up(mine[0])
                    mine.clear()
                return {"I": self.INTERRUPT.IGNORE, "E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART}[cause]

        return T

    def give_up(self, r):
        if r in self.waiting:
            self.waiting.remove(r)
        elif not r.ev.processed:
            self.putting.append(r.item)
            self.ctx.fault("given-back")


def run(plan, ctx):
    with ctx.context() as env:
        World(plan, ctx, env)
        ctx.drive(env)
