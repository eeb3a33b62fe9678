"""C17: self-monitoring resources record every change, and change nothing."""
import copy

import simpy
import upstage_des.api as UP
from upstage_des.resources.container import ContainerError, ContinuousContainer
from upstage_des.resources.monitoring import (SelfMonitoringContainer, SelfMonitoringContinuousContainer, SelfMonitoringFilterStore,
                                              SelfMonitoringReserveContainer, SelfMonitoringSortedFilterStore, SelfMonitoringStore)
from upstage_des.resources.reserve import ReserveContainer
from upstage_des.resources.sorted import SortedFilterStore

from dst.core import INF, at

ID = "C17"
RUNS = {"quick": 33000, "thorough": 700000}
SHRINK = ["ops", "faults"]
RULE = ("each generated program (3-40 puts, gets, filtered and sorted gets, flows, reservations, by tasks and directly, "
        "cancelled and interrupted, many in one instant, on generated capacities) is run on a plain resource and on its "
        "self-monitoring kind, made directly or as resource state; answers, completion times, values and contents at "
        "every instant must be equal, and after every event the recorded history must end with the quantity (or "
        "generated summary) now held, at the time of the change, all times in order. "
        "Non-trivial: requests had to wait or were cancelled and the quantity changed at least three times.")
REAL = ["all upstage_des self-monitoring resources and the plain resources they extend, events, tasks; simpy"]
STUB = ["none"]
ASSUME = ["items are not mutated while stored in a way that changes the chosen summary"]

KINDS = {"store": (simpy.Store, SelfMonitoringStore), "filter": (simpy.FilterStore, SelfMonitoringFilterStore),
         "sorted": (SortedFilterStore, SelfMonitoringSortedFilterStore), "container": (simpy.Container, SelfMonitoringContainer),
         "continuous": (ContinuousContainer, SelfMonitoringContinuousContainer), "reserve": (ReserveContainer, SelfMonitoringReserveContainer)}
SUMMARY = {"len": len, "sum": lambda items: sum(x.w for x in items), "list": lambda items: [x.n for x in items],
           "max": lambda items: max((x.w for x in items), default=None), "kinds": lambda items: {k: sum(x.k == k for x in items) for k in range(3)},
           "first": lambda items: items[0].n if items else -1}


class Worker(UP.Actor):
    note = UP.State(default=0)


class Item:
    def __init__(self, n, k, w):
        self.n, self.k, self.w = n, k, w

    def __eq__(self, other):
        return isinstance(other, Item) and self.k == other.k

    def __hash__(self):
        return self.k

    def __repr__(self):
        return f"i{self.n}"


def gen(rng, tier):
    kind = rng.choice(list(KINDS))
    grid, span = rng.choice([0.5, 1.0]), rng.choice([3, 8, 15])
    amounts = [0.5, 1, 2, 3, 5] if rng.random() < 0.7 else [0.1, 0.2, 0.3, 0.7, 1.1]
    ops = []
    for i in range(rng.randint(3, 40)):
        ops.append(dict(op=rng.choice(["put", "put", "get", "get", "cancel"] + (["take", "reserve"] if kind == "reserve" else [])), t=grid * rng.randint(0, span) + (round(rng.random(), 2) if rng.random() < 0.2 else 0),
                        via=rng.choice(["raw", "raw", "up", "task"]), q=rng.choice(amounts), time=rng.choice([None, 1, 2, 2.3, 4]), k=rng.randint(0, 2), w=rng.randint(0, 5), any=rng.random() < 0.4,
                        rev=rng.random() < 0.4, sort=rng.random() < 0.6, i=rng.randint(0, 39), exp=rng.choice([None, 1, 2.5]), limit=rng.choice([None, 1.0, 2.0]),
                        depth=rng.choice([0, 0, 0, 1, 2]), prio=rng.choice([0, 1, 1, 2])))
    faults = [dict(t=grid * rng.randint(0, span), k=rng.randint(0, 9), ans=rng.choice("IRE"), depth=rng.choice([0, 1, 2]), prio=rng.choice([0, 1, 2]))
              for _ in range(rng.choice([0, 0, 2, 5]))]
    cap = rng.choice([None, None, 1, 2, 5]) if kind in ("store", "filter", "sorted") else rng.choice([4, 10, 10, 2.1])
    return dict(kind=kind, cap=cap, init=rng.choice([0, 0, 1, 0.5]) * (cap or 0), summary=rng.choice(["len", "len"] + list(SUMMARY)), state=rng.random() < 0.4,
                t0=rng.choice([0.0, 0.0, 4.25]), empty=rng.random() < 0.3, full=rng.random() < 0.3, ops=ops, faults=faults, span=grid * span + 12)


class World:
    def __init__(self, plan, ctx, env, mon):
        self.plan, self.ctx, self.env, self.mon = plan, ctx, env, mon
        self.kind = kind = plan["kind"]
        cls = KINDS[kind][mon]
        kw = {} if plan["cap"] is None else dict(capacity=plan["cap"])
        if kind in ("container", "continuous", "reserve"):
            kw["init"] = plan["init"]
        if kind == "continuous":
            kw.update(error_empty=plan["empty"], error_full=plan["full"])
        self.sum = SUMMARY[plan["summary"]]
        if mon and kind in ("store", "filter", "sorted") and plan["summary"] != "len":
            kw["item_func"] = self.sum
        if plan["state"] and kind not in ("continuous", "reserve"):
            class Owner(UP.Actor):
                box = UP.ResourceState(default=cls, default_kwargs=kw) if len(kw) % 2 else UP.ResourceState(valid_types=(cls,))
            self.owner = Owner(name="owner") if len(kw) % 2 else Owner(name="owner", box=dict(kind=cls, **kw))
            self.box = self.owner.box
        else:
            self.box = cls(env, **kw)
        self.out, self.requests, self.tasks, self.n = [], [], [], 0
        self.last, self.seen, self.changed = None, 0, env.now
        self.changes = self.waits = 0
        self.stored, self.kept = plan["init"], []
        for o in plan["ops"]:
            at(env, plan["t0"] + o["t"], lambda o=o: self.do(o), o["depth"], o["prio"])
        for f in plan["faults"]:
            at(env, plan["t0"] + f["t"], lambda f=f: self.interrupt(f), f["depth"], f["prio"])
        self.recorded("start")
        env._step_hooks.append(lambda: self.recorded("event"))
        env._hooks.append(self.instant)

    def say(self, *x):
        self.out.append((self.env.now,) + x)

    # ---- what is held and what is recorded
    def held(self):
        if self.kind in ("store", "filter", "sorted"):
            return self.sum(self.box.items)
        if self.kind == "reserve":
            return self.stored
        return self.box.level

    def recorded(self, what):
        now = self.held()
        if now != self.last:
            self.changes += self.last is not None
            self.last, self.changed = now, self.env.now
        if not self.mon:
            return
        ctx, hist = self.ctx, self.box._quantities
        for t, v in hist[self.seen:]:
            ctx.check(t == self.env.now, "time", f"entry {(t, v)} written at {self.env.now}")
        self.seen = len(hist)
        t, v = hist[-1]
        if self.kind == "continuous":
            rate = self.box.rate
            got = min(max(v + rate * (self.env.now - t), 0), self.plan["cap"])
            ctx.check(abs(got - now) < 1e-9 * max(1, abs(now)), "recorded", f"{what}: history ends {(t, v)}, rate {rate}, level {now} at {self.env.now}")
            return
        if self.kind == "reserve":
            ctx.check(abs(v - now) < 1e-9, "recorded", f"{what}: history ends {(t, v)}, held {now} since {self.changed}, at {self.env.now}")
            return
        ctx.check(v == now, "recorded", f"{what}: history ends {(t, v)}, held {now} since {self.changed}, at {self.env.now}")
        ctx.check(t >= self.changed, "recorded-late", f"{what}: history ends {(t, v)}, held {now} since {self.changed}")

    def instant(self):
        if self.mon:
            self.kept.append((self.env.now, copy.deepcopy(self.box._quantities[-1])))
        # whole contents, seen without asking more of the resource than a user would
        if self.kind in ("store", "filter", "sorted"):
            self.say("items", [x.n for x in self.box.items], len(self.box.put_queue), len(self.box.get_queue))
        elif self.kind == "container":
            self.say("level", self.box.level, len(self.box.put_queue), len(self.box.get_queue))
        elif self.kind == "continuous":
            self.say("level", self.box.level, self.box.rate)
        else:
            self.say("available", self.box.available, self.box.queued)

    # ---- operations
    def watch(self, ev, what, n):
        if not ev.triggered:
            self.waits += 1
        ev.callbacks.append(lambda e: self.say(what, n, repr(e.value)))

    def do(self, o):
        getattr(self, "do_" + ("store" if self.kind in ("filter", "sorted") else self.kind))(o)
        self.recorded(o["op"])

    def get_args(self, o):
        if self.kind == "store":
            return {}
        if self.kind == "container":
            return dict(amount=o["q"])
        kw = {} if o["any"] else dict(filter=lambda x: x.k == o["k"])
        if self.kind == "sorted" and o["sort"]:
            kw.update(sorter=lambda x: x.w, reverse=o["rev"])
        return kw

    def do_store(self, o):
        self.n += 1
        n = self.n
        if o["op"] == "cancel":
            if self.requests:
                ev, raw = self.requests[o["i"] % len(self.requests)]
                if not raw.processed and ev not in self.cancelled:
                    self.cancelled.append(ev)
                    self.ctx.fault("cancel")
                    self.waits += 1
                    ev.cancel()
        elif o["via"] == "task":
            self.tasks.append(self.make_task(o, n)().run(actor=Worker(name=f"w{n}")))
        else:
            ev = self.request(o, n)
            raw = ev
            if o["via"] == "up":
                raw = ev.as_event()
            self.watch(raw, o["op"], n)
            self.requests.append((ev, raw))

    cancelled = ()

    def request(self, o, n):
        if not self.cancelled:
            self.cancelled = []
        up = o["via"] != "raw"
        if o["op"] == "put":
            arg = o["q"] if self.kind == "container" else Item(n, o["k"], o["w"])
            return UP.Put(self.box, arg) if up else self.box.put(arg)
        kw = self.get_args(o)
        if not up:
            return self.box.get(**kw)
        if self.kind == "sorted":
            return UP.SortedFilterGet(self.box, **kw)
        if self.kind == "filter" and "filter" in kw:
            return UP.FilterGet(self.box, **kw)
        return UP.Get(self.box, **kw)

    do_container = do_store

    def do_continuous(self, o):
        if o["op"] == "cancel":
            if self.requests:
                self.ctx.fault("cancel")
                self.requests[o["i"] % len(self.requests)].cancel()
                self.waits += 1
            return
        self.n += 1
        n = self.n
        ev = (self.box.put if o["op"] == "put" else self.box.get)(rate=o["q"], time=o["time"], custom_callbacks=[lambda: self.say("limit", n)])
        self.requests.append(ev)

    def do_reserve(self, o):
        who, box = o["i"] % 4, self.box
        self.waits += 1
        try:
            if o["op"] in ("get", "reserve"):
                ans = box.reserve(who, o["q"], expiration=o["exp"])
            elif o["op"] == "cancel":
                self.ctx.fault("cancel")
                ans = box.cancel_request(who)
            elif o["op"] == "take":
                ans = box.take(who)
                self.stored -= ans
            else:
                ans = box.put(o["q"], capacity_increase=o["rev"])
                self.stored += o["q"]
        except ValueError as e:
            ans = "refused"
        self.say(o["op"], who, ans)

    def interrupt(self, f):
        if self.tasks and self.tasks[f["k"] % len(self.tasks)].is_alive:
            self.tasks[f["k"] % len(self.tasks)].interrupt(cause=f["ans"])
            self.ctx.fault("interrupt-" + f["ans"])

    def make_task(self, o, n):
        w = self

        class T(UP.Task):
            def task(self, *, actor):
                ev = w.request(o, n)
                w.waits += 1
                if o["limit"] is None:
                    got = yield ev
                    w.say("task", n, repr(got))
                else:
                    yield UP.Any(ev, UP.Wait(o["limit"]))
                    done = ev.is_complete()
                    w.say("task", n, done)
                    if not done:
                        ev.cancel()

            def on_interrupt(self, *, actor, cause):
                return {"I": self.INTERRUPT.IGNORE, "E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART}[cause]

        return T


def one(plan, ctx, mon):
    with ctx.context(initial_time=plan["t0"]) as env:
        w = World(plan, ctx, env, mon)
        end = plan["t0"] + plan["span"]
        while env._queue and env._queue[0][0] <= end:
            try:
                env.step()
            except ContainerError as e:
                w.say("error", type(e).__name__, str(e))
                w.recorded("error")
        if env.now < end:
            env.run(until=end)
        w.recorded("end")
        w.say("end", w.held())
        if mon:
            times = [t for t, _ in w.box._quantities]
            ctx.check(times == sorted(times), "order", f"times {times}")
            for t, last in w.kept:
                had = [q for q in w.box._quantities if q[0] <= t][-1]
                ctx.check(had == last, "rewritten", f"the history gave {last} at {t}, later {had}")
        return w


def run(plan, ctx):
    a, b = one(plan, ctx, False), one(plan, ctx, True)
    ctx.nontrivial = b.changes >= 3 and b.waits > 0
    ctx.log(b.out)
    for x, y in zip(a.out, b.out):
        ctx.check(x == y, "differs", f"plain {plan['kind']}: {x}, self-monitoring: {y}")
    ctx.check(len(a.out) == len(b.out), "differs", f"plain {plan['kind']}: {a.out[len(b.out):]}, self-monitoring: {b.out[len(a.out):]}")
