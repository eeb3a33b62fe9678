"""C12: a windowed get returns what arrived in its window and loses nothing; routines run in place."""
import simpy
import upstage_des.api as UP
from upstage_des.resources.monitoring import SelfMonitoringFilterStore, SelfMonitoringSortedFilterStore, SelfMonitoringStore
from upstage_des.resources.sorted import SortedFilterStore

from dst.core import at, close

ID = "C12"
RUNS = {"quick": 36000, "thorough": 400000}
SHRINK = ["tasks", "steps", "faults", "puts", "body"]
RULE = ("1-3 tasks run windowed gets (fixed or reset windows, plain/filter/sorted/self-monitoring stores with or without "
        "a capacity) and user routines (waits, gets, events, composites, clean-up that takes time) under producers and "
        "interrupts with every answer, on a coarse grid (arrivals and interrupts at the closing instant) or jittered. "
        "Every instant: each item in exactly one place, nothing withheld from an open window; each result against its "
        "window and arrival order; each routine run against the same steps inlined in the task and its clean-up counted. "
        "Non-trivial: a window took two items, or a routine was interrupted.")
REAL = ["upstage_des routines, task, events, sorted and self-monitoring stores; simpy stores"]
STUB = []
ASSUME = ["a clean-up that waits is not abandoned when interrupted again (its task is already stopping)"]

STORES = {"store": simpy.Store, "mon": SelfMonitoringStore, "filter": simpy.FilterStore, "monfilter": SelfMonitoringFilterStore,
          "sorted": SortedFilterStore, "monsorted": SelfMonitoringSortedFilterStore}


class Item:
    def __init__(self, n, cls, twins=False):
        self.n, self.cls, self.twins = n, cls, twins

    def __repr__(self):
        return f"i{self.n}"

    # some items are falsy, some are equal to others
    def __bool__(self):
        return self.n % 3 != 1

    def __eq__(self, other):
        return isinstance(other, Item) and (self.n == other.n or self.twins and self.n % 4 == other.n % 4 == 2)

    def __hash__(self):
        return 0


class Worker(UP.Actor):
    note = UP.State(default=0)


def times(rng, grid, fine):
    t = grid * rng.randint(0, 24)
    return round(t + rng.random() * grid, 6) if fine else t


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0])
    fine = rng.random() < 0.4
    kind = rng.choice(list(STORES))
    plan = dict(grid=grid, fine=fine, kind=kind, cap=rng.choice([None, None, None, 2, 4]), unit=rng.choice(["hr", "hr", "min"]))
    n = 0
    plan["puts"] = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice([1, 1, 1, 2, 3])
        plan["puts"].append(dict(t=times(rng, grid, fine), items=[dict(n=n + j, cls=rng.randint(0, 1)) for j in range(k)],
                                 depth=rng.choice([0, 0, 1, 2, 3, 4]), prio=rng.choice([0, 1, 2])))
        n += k
    plan["tasks"] = []
    for _ in range(rng.randint(1, 3)):
        steps = []
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(["window", "window", "window", "routine", "routine", "wait"])
            s = dict(op=op, d=grid * rng.randint(0, 4), reset=rng.random() < 0.4, unit=rng.choice([None, None, "min", "hr"]), cls=rng.choice([None, 0, 1]))
            if op == "routine":
                s["body"] = [dict(op=rng.choice(["wait", "wait", "get", "event", "any", "zero", "noop"]), d=grid * rng.randint(0, 3)) for _ in range(rng.randint(0, 4))]
                s["clean"] = [grid * rng.choice([0, 0, 1, 2]) for _ in range(rng.randint(0, 2))]
                s["ret"] = rng.choice([None, 0, 5, "x"])
            steps.append(s)
        plan["tasks"].append(dict(t=grid * rng.choice([0, 0, 1, 2]), steps=steps))
    plan["faults"] = [dict(t=times(rng, grid, fine), task=rng.randint(0, 2), ans=rng.choice("EIRRI" if rng.random() < 0.7 else "I"), depth=rng.choice([0, 0, 1, 2, 3, 4]), prio=rng.choice([0, 1, 2]))
                      for _ in range(rng.randint(0, 6))]
    return plan


class World:
    def __init__(self, plan, ctx, env, inline):
        self.plan, self.ctx, self.env, self.inline = plan, ctx, env, inline
        self.log = []
        self.live = {}      # windows in progress: routine -> record
        self.final = []     # items finally handed to a task
        self.gets = []      # plain gets of user routines in progress
        self.given = []
        self.puts = []
        self.routines = []
        self.arrived = {}
        self.returned = set()
        self.ended = set()
        kw = {} if plan["cap"] is None else dict(capacity=plan["cap"])
        self.store = STORES[plan["kind"]](env, **kw)
        self.side = simpy.Store(env)
        put = self.store.put

        def noted(item, *a, **k):
            if item.n in self.arrived:
                self.returned.add(item.n)  # it goes through the store again: its place is that of its return
            self.arrived[item.n] = len(self.arrived)
            return put(item, *a, **k)

        self.store.put = noted
        get = self.store.get
        self.requests = []  # (request, process that made it)

        def asked(*a, **k):
            req = get(*a, **k)
            self.requests.append((req, env.active_process))
            return req

        self.store.get = asked
        self.actors, self.procs, self.answers = [], [], []
        for i, t in enumerate(plan["tasks"]):
            a = Worker(name=f"w{i}")
            self.actors.append(a)
            self.procs.append(None)
            self.answers.append([])
            at(env, t["t"], lambda i=i: self.start(i))
        for p in plan["puts"]:
            at(env, p["t"], lambda p=p: self.produce(p), p["depth"], p["prio"])
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: self.interrupt(f), f["depth"], f["prio"])

    def start(self, i):
        self.procs[i] = self.make_task(i)().run(actor=self.actors[i])
        self.procs[i].callbacks.append(lambda _e: (self.log.append((i, self.env.now, "over")), self.ended.add(i), self.forget(i)))

    def forget(self, i):
        """The clean-up of a task's interrupted window is over: nothing is the window's any more."""
        self.live = {k: rec for k, rec in self.live.items() if rec["i"] != i}

    def produce(self, p):
        for it in p["items"]:
            item = Item(it["n"], it["cls"], self.plan["kind"] not in ("filter", "monfilter"))  # SimPy's filter store removes by equality
            self.puts.append(item)
            ev = self.store.put(item)
            self.ctx.log("put", self.env.now, item.n, ev.triggered)

    def interrupt(self, f):
        i = f["task"] % max(1, len(self.procs))
        if i < len(self.procs) and self.procs[i] is not None and self.procs[i].is_alive:
            self.procs[i].interrupt(cause=f["ans"])
            if not self.inline:
                self.ctx.fault("interrupt-" + f["ans"])

    # ---- program
    def matches(self, s):
        # a plain store has no filter
        return (lambda x: True) if s["cls"] is None or self.plan["kind"] in ("store", "mon") else (lambda x, c=s["cls"]: x.cls == c)

    def make_task(self, i):
        w = self
        steps = self.plan["tasks"][i]["steps"]

        class T(UP.Task):
            def task(self, *, actor):
                w.log.append((i, w.env.now, "begin"))
                w.forget(i)
                for k, s in enumerate(steps):
                    if s["op"] == "wait":
                        yield UP.Wait(s["d"])
                    elif s["op"] == "window":
                        yield from w.window(self, i, k, s)
                    elif w.inline:
                        val = yield from w.body(i, k, s, None)
                        w.log.append((i, w.env.now, k, "result", val))
                    else:
                        r = Mine(w, i, k, s)
                        val = yield r
                        r.done += 1
                        w.log.append((i, w.env.now, k, "result", val))

            def on_interrupt(self, *, actor, cause):
                w.log.append((i, w.env.now, "interrupt", cause))
                if cause != "I":
                    for rec in w.live.values():
                        rec["cut"] = rec["cut"] or rec["i"] == i
                    for r in w.routines:
                        if r.i == i and r.runs and not r.done and not r.expect:
                            r.expect = 1
                            r.when = w.env.now
                            w.ctx.nontrivial = True
                return {"E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART, "I": self.INTERRUPT.IGNORE}[cause]

        return T

    def window(self, task, i, k, s):
        kind, match = self.plan["kind"], self.matches(s)
        args = None
        if kind not in ("store", "mon"):
            args = (match,) if "sorted" not in kind else (match, lambda x: x.n)
        unit = s["unit"]
        d = s["d"]
        r = UP.WindowedGet(self.store, d, timeout_unit=unit, reset_window=s["reset"], get_args=args)
        scale = {(None, "hr"): 1, (None, "min"): 1, ("min", "hr"): 1 / 60, ("min", "min"): 1, ("hr", "hr"): 1, ("hr", "min"): 60}[(unit, self.plan["unit"])]
        rec = dict(i=i, k=k, s=s, r=r, seen=0, cut=False, first=None, last=None, d=d * scale, match=match, order="n" if "sorted" in kind else "arrival")
        self.live[id(r)] = rec
        # windows in a task end by an interrupt before they are forgotten
        out = yield r
        now = self.env.now
        self.observe(rec)
        del self.live[id(r)]
        self.ctx.check(out is r.result and len(out) > 0, "window-result", f"task {i} step {k} got {out!r}, routine has {r.result!r}")
        self.ctx.check(close(now, rec["close"], 1e-9), "window-closed-at", f"task {i} step {k}: returned {out} at {now}, window closes at {rec['close']} (first {rec['first']}, last {rec['last']}, timeout {rec['d']}, reset {s['reset']})")
        self.final.extend(out)
        for x in out:
            self.ctx.check(match(x), "window-filter", f"{x} doesn't match")
        if rec["order"] == "arrival":
            ns = [self.arrived[x.n] for x in out if x.n not in self.returned]
            self.ctx.check(ns == sorted(ns), "window-order", f"task {i} step {k} returned {out}, arrivals {ns}")
        if len(out) > 1:
            self.ctx.nontrivial = True
        self.ctx.cover("windows")
        self.log.append((i, now, k, "window", len(out)))
        self.ctx.log("window", i, k, now, [x.n for x in out])

    def observe(self, rec):
        r = rec["r"]
        if len(r.result) > rec["seen"]:
            now = self.env.now
            if rec["first"] is not None:
                self.ctx.check(now <= rec["close"] + 1e-9, "took-after-close", f"{r.result[rec['seen']:]} taken at {now}, window closed at {rec['close']}")
            else:
                rec["first"] = now
                rec["close"] = now + rec["d"]
            rec["last"] = now
            if rec["s"]["reset"]:
                rec["close"] = now + rec["d"]
            rec["seen"] = len(r.result)

    def body(self, i, k, s, routine):
        for j, b in enumerate(s["body"]):
            op = b["op"]
            self.log.append((i, self.env.now, k, j, op))
            if op == "wait":
                val = yield UP.Wait(b["d"])
            elif op == "zero":
                val = yield UP.Wait(0.0)
            elif op == "event":
                ev = UP.Event()
                at(self.env, self.env.now + b["d"], lambda ev=ev: None if ev._event.triggered else ev.succeed(v=j))
                val = yield ev
                self.log.append((i, self.env.now, k, j, "payload", ev.get_payload()))
            elif op == "get":
                self.side.put((i, k, j))
                val = yield UP.Get(self.side)
                self.log.append((i, self.env.now, k, j, "got"))
            elif op == "any":
                a, c = UP.Wait(b["d"]), UP.Wait(b["d"] + 1)
                val = yield UP.Any(a, c)
                self.log.append((i, self.env.now, k, j, a.is_complete(), c.is_complete()))
                val = None
            else:
                val = None
            self.log.append((i, self.env.now, k, j, "value", val if op in ("wait", "zero") else type(val).__name__))
        return s["ret"]

    # ---- invariants at the end of each instant
    def instant(self):
        env, ctx = self.env, self.ctx
        for rec in list(self.live.values()):
            self.observe(rec)
            # an open window withholds nothing
            waiting = [q for q, proc in self.requests if proc is self.procs[rec["i"]] and q in self.store.get_queue]
            ctx.check(len(waiting) <= 1, "leaked-request", f"{len(waiting)} requests of task {rec['i']} are in the store's queue at {env.now}")
            if waiting and not rec["cut"]:
                ctx.check(not any(rec["match"](x) for x in self.store.items), "window-withheld", f"task {rec['i']} waits in an open window while {self.store.items} are in the store")
                if rec["first"] is not None:
                    ctx.check(env.now <= rec["close"] + 1e-9, "window-open-late", f"window of task {rec['i']} still open at {env.now}, closes {rec['close']}")
        for q in list(self.store.get_queue):
            by = [proc for req, proc in self.requests if req is q]
            owners = [rec for rec in self.live.values() if self.procs[rec["i"]] in by and not rec["cut"] and rec["i"] not in self.ended]
            ctx.check(owners, "leaked-request", f"a request nobody waits for is in the store's queue at {env.now}")
        have = [x.n for x in self.store.items] + [p.item.n for p in self.store.put_queue] + [x.n for x in self.final]
        for rec in self.live.values():
            have += [x.n for x in rec["r"].result if not (rec["cut"] and x.n in have)]  # being put back
        want = [x.n for x in self.puts]
        ctx.check(sorted(have) == sorted(want), "item-lost-or-copied", lambda: f"at {env.now}: put {sorted(want)}; found {sorted(have)} in store {self.store.items}, pending {[p.item for p in self.store.put_queue]}, windows {[r['r'].result for r in self.live.values()]}, tasks {self.final}")
        for r in self.routines:
            ctx.check(r.cancels <= r.expect, "clean-up-uncalled-for", f"routine {r.k} of task {r.i}: {r.cancels} clean-ups, {r.expect} interruptions, done={r.done}")
            if r.expect:
                ctx.check(r.cancels == 1, "no-clean-up", f"routine {r.k} of task {r.i} was interrupted at {r.when}, {r.cancels} clean-ups")


class Mine(UP.Routine):
    def __init__(self, w, i, k, s):
        super().__init__()
        self.w, self.i, self.k, self.s = w, i, k, s
        self.runs = self.cancels = self.done = self.expect = self.cleaned = 0
        w.routines.append(self)

    def run(self):
        self.runs += 1
        val = yield from self.w.body(self.i, self.k, self.s, self)
        self.w.ctx.check(not self.expect, "ran-after-interrupt", f"routine {self.k} of task {self.i} went on after it was interrupted at {self.expect and self.when}")
        return val

    def cancel(self):
        self.cancels += 1
        t = self.w.env.now
        self.w.ctx.check(self.expect and close(t, self.when, 1e-9), "clean-up-time", f"clean-up of routine {self.k} of task {self.i} at {t}, interrupted: {self.expect and self.when}")
        for d in self.s["clean"]:
            yield UP.Wait(d)
            t += d
            self.w.ctx.check(close(self.w.env.now, t, 1e-9), "clean-up-steps", f"{self.w.env.now} instead of {t}")
        self.cleaned += 1


def one(plan, ctx, inline):
    orig = ctx.note_event
    if inline:
        ctx.note_event = lambda t, n: None
    try:
        with ctx.context(random_seed=3) as env:
            UP.add_stage_variable("time_unit", plan["unit"])
            w = World(plan, ctx, env, inline)
            env._hooks.append(w.instant)
            ctx.drive(env, 80.0)
            for r in w.routines:
                ctx.check(r.cleaned == r.expect, "clean-up-unfinished", f"routine {r.k} of task {r.i}")
            return w
    finally:
        if inline:
            del ctx.note_event


def run(plan, ctx):
    w = one(plan, ctx, False)
    if all(f["ans"] == "I" for f in plan["faults"]) and w.routines:
        v = one(plan, ctx, True)
        ctx.cover("inlined")
        for i in range(len(plan["tasks"])):
            a, b = [x for x in w.log if x[0] == i], [x for x in v.log if x[0] == i]
            for x, y in zip(a, b):
                ctx.check(x[2:] == y[2:] and close(x[1], y[1], 1e-9), "routine-in-place", lambda: f"{x} with the routine, {y} with its steps in the task")
            ctx.check(len(a) == len(b), "routine-in-place", f"{a[-2:]} with the routine, {b[-2:]} with its steps in the task")
