"""C13: events complete exactly when, and with what, they should."""
import simpy
import upstage_des.api as UP
from upstage_des.base import SimulationError, UpstageError
from upstage_des.resources.sorted import SortedFilterStore

from dst.core import INF, at, close

ID = "C13"
RUNS = {"quick": 33000, "thorough": 400000}
SHRINK = ["tasks", "steps", "parts", "faults"]
RULE = ("1-4 tasks yield generated trees of any/all (depth 0-3, members shared inside a tree and between tasks) over "
        "waits with units, random waits, events with payloads, knowledge events, gets/puts/filtered and sorted gets, "
        "container requests, resource holds and processes, whose completion times are planned by the simulator (with "
        "ties, before, at and never), under ignore/restart/end interrupts; trees and members are inspected later and "
        "waited on again. Resume times, values, payloads and every node's completion report are compared with a direct "
        "evaluation of the tree. Non-trivial: a composite of two or more members was waited for.")
REAL = ["upstage_des events, task, sorted store, actor knowledge; simpy"]
STUB = ["the partners that complete requests and events at planned times"]
ASSUME = ["at a tie a member completing at the very resume instant may report either way; the report must be consistent with its members"]

UNITS = {"s": 1.0, "second": 1.0, "min": 60.0, "hr": 3600.0, "hour": 3600.0, "day": 86400.0, "week": 604800.0, "Weeks": 604800.0}
LEAVES = ["early", "wait", "wait", "unit", "whole", "rand", "event", "event", "kevent", "get", "none", "fget", "sget", "cget", "cput", "put", "hold", "proc"]


class Worker(UP.Actor):
    note = UP.State(default=0)


class Thing:
    def __init__(self, n):
        self.n = n


def leaf(rng, grid):
    d = rng.choice([0, 1, 1, 2, 3, 4, 5]) * grid
    if rng.random() < 0.4:
        d = round(d + rng.random() * grid, 6)
    return dict(op=rng.choice(LEAVES), d=d, never=rng.random() < 0.1, again=grid * rng.randint(1, 5), unit=rng.choice(list(UNITS)),
                span=rng.random() * 2, payload=rng.randint(0, 9), n=rng.choice([1, 2, 3, 7, 40, 250, 2501, 100003]), manual=rng.random() < 0.25)


def tree(rng, grid, depth):
    if depth == 0 or rng.random() < 0.35:
        r = rng.random()
        if r < 0.08:
            return dict(op="pool", k=rng.randint(0, 2))
        if r < 0.16:
            return dict(op="same", k=rng.randint(0, 3))
        return leaf(rng, grid)
    return dict(op=rng.choice(["any", "all"]), parts=[tree(rng, grid, depth - 1) for _ in range(rng.randint(1, 4))])


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0])
    plan = dict(grid=grid, unit=rng.choice(list(UNITS)), t0=rng.choice([0.0, 0.0, 100.25]), seed=rng.randint(0, 99),
                pool=[dict(t=round(grid * rng.randint(1, 15) + 0.37, 6), p=rng.randint(0, 9)) for _ in range(3)])
    plan["tasks"] = [dict(t=grid * rng.choice([0, 0, 1, 2]),
                          steps=[dict(tree=tree(rng, grid, rng.choice([0, 1, 2, 3])), later=[grid * rng.choice([0, 1, 2]) for _ in range(rng.randint(0, 2))],
                                      again=rng.choice([None, None, "root", 0, 1, 2]), drop=rng.random() < 0.3) for _ in range(rng.randint(1, 4))])
                     for _ in range(rng.randint(1, 4))]
    plan["faults"] = [dict(t=grid * rng.randint(0, 20) + rng.choice([0, 0, 0.21]), task=rng.randint(0, 3), ans=rng.choice("IIIRE"), depth=rng.choice([0, 0, 1, 2]), prio=rng.choice([0, 1, 2]))
                      for _ in range(rng.choice([0, 0, 1, 3]))]
    return plan


def pay(v):
    """A payload: its names differ too."""
    return [{}, {"p": v}, {"q": v, "r": 0}, {"p": None, "q": False, "s": ""}][v % 4] if v >= 0 else {"again": v}


class Node:
    def __init__(self, op, ev, kids=(), comp=INF, value=None, payload=None, rearm=None):
        self.op, self.ev, self.kids, self.comp, self.value, self.payload, self.rearm = op, ev, list(kids), comp, value, payload, rearm
        self.later = []     # times of further successes (events)
        self.cancelled = False
        self.manual = False  # has to be reset by hand

    def leaves(self):
        if not self.kids:
            return [self]
        return [x for k in self.kids for x in k.leaves()]

    def all(self):
        return [self] + [x for k in self.kids for x in k.all()]

    def when(self):
        if self.op == "any":
            return min(k.when() for k in self.kids)
        if self.op == "all":
            return max(k.when() for k in self.kids)
        return self.comp


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.t0 = plan["t0"]
        self.procs, self.pending = {}, {}
        self.serial = 0
        self.pool = []
        for p in plan["pool"]:
            node = Node("pool", UP.Event(), comp=self.t0 + p["t"], payload=pay(p["p"]))
            self.pool.append(node)
            at(env, self.t0 + p["t"], lambda node=node, p=p: None if node.cancelled else node.ev.succeed(**pay(p["p"])))
        for i, t in enumerate(plan["tasks"]):
            at(env, self.t0 + t["t"], lambda i=i: self.start(i))
        for f in plan["faults"]:
            at(env, self.t0 + f["t"], lambda f=f: self.interrupt(f), f["depth"], f["prio"])

    def start(self, i):
        a = Worker(name=f"w{i}")
        self.procs[i] = self.make_task(i)().run(actor=a)

    def interrupt(self, f):
        p = self.procs.get(f["task"] % len(self.plan["tasks"])) if self.plan["tasks"] else None
        if p is not None and p.is_alive:
            p.interrupt(cause=f["ans"])
            self.ctx.fault("interrupt-" + f["ans"])

    # ---- building a tree of real events together with its model
    def build(self, actor, s, made):
        op, env = s["op"], self.env
        if op in ("any", "all"):
            kids = [self.build(actor, k, made) for k in s["parts"]] or [self.build(actor, dict(op="wait", d=0.0), made)]
            return Node(op, (UP.Any if op == "any" else UP.All)(*[k.ev for k in kids]), kids)
        if op == "same" and made and made[s["k"] % len(made)].op != "hold":
            return made[s["k"] % len(made)]
        if op == "pool" and s["k"] < len(self.pool) and env.now < self.pool[s["k"]].comp:
            return self.pool[s["k"]]
        if op in ("same", "pool"):
            op, s = "wait", dict(d=self.plan["grid"])
        d, now = s["d"], env.now
        never = s.get("never") and op not in ("wait", "unit", "whole", "rand")
        if op == "whole":
            d = s["n"] * (UNITS[s["unit"]] / UNITS[self.plan["unit"]])
        t = INF if never else now + d
        self.serial += 1
        node = Node(op, None, comp=t)

        def partner(fn):
            if not never:
                at(env, t, fn)

        if op == "wait":
            node.ev = UP.Wait(d)
        elif op == "unit":
            f = UNITS[s["unit"]] / UNITS[self.plan["unit"]]
            node.ev = UP.Wait(d / f, timeout_unit=s["unit"])
        elif op == "whole":
            node.ev = UP.Wait(s["n"], timeout_unit=s["unit"])
        elif op == "rand":
            f = UNITS[s["unit"]] / UNITS[self.plan["unit"]]
            node.ev = UP.Wait.from_random_uniform(d / f, (d + s["span"]) / f, timeout_unit=s["unit"])
            got = node.ev.timeout
            self.ctx.check(d - 1e-6 <= got <= d + s["span"] + 1e-6, "random-bounds", f"{got} not in [{d}, {d + s['span']}]")
            node.comp = now + got
        elif op == "early":
            # succeeded before it is waited for, in the same instant
            node.op, node.ev, node.comp, node.payload = "event", UP.Event(), now, pay(s["payload"])
            node.ev.succeed(**pay(s["payload"]))
        elif op in ("event", "kevent"):
            if op == "event":
                node.ev = UP.Event(auto_reset=False) if s["manual"] else UP.Event()
                node.manual = s["manual"]
                partner(lambda: self.succeed(node, node.ev.succeed, s["payload"]))
            else:
                name = f"k{self.serial}"
                node.ev = actor.create_knowledge_event(name=name)
                partner(lambda: self.succeed(node, lambda **k: actor.succeed_knowledge_event(name=name, **k), s["payload"]) if actor.get_knowledge(name) is node.ev else None)
            node.payload = pay(s["payload"])
            if op == "event" and not never:
                again = t + s["again"]
                node.later = [again]
                at(env, again, lambda: None if node.cancelled or node.ev._event.triggered else node.ev.succeed(**pay(-1)))
        elif op in ("get", "none"):
            st, node.value = simpy.Store(env), Thing(self.serial) if op == "get" else None
            node.ev = UP.Get(st)
            partner(lambda: st.put(node.value))
        elif op == "fget":
            st, node.value = simpy.FilterStore(env), Thing(self.serial)
            n = self.serial
            st.put(Thing(-1))
            node.ev = UP.FilterGet(st, lambda x: x.n == n)
            partner(lambda: st.put(node.value))
        elif op == "sget":
            st, node.value = SortedFilterStore(env), Thing(self.serial)
            n = self.serial
            st.put(Thing(-1))
            node.ev = UP.SortedFilterGet(st, lambda x: x.n == n, lambda x: x.n)
            partner(lambda: st.put(node.value))
        elif op == "cget":
            c = simpy.Container(env, capacity=10)
            node.ev = UP.Get(c, 2.5)
            partner(lambda: c.put(2.5))
        elif op == "cput":
            c = simpy.Container(env, capacity=10, init=9)
            node.ev = UP.Put(c, 2.5)
            partner(lambda: c.get(4))
        elif op == "put":
            st = simpy.Store(env, capacity=1)
            st.items.append("old")
            node.ev = UP.Put(st, Thing(0))
            partner(lambda: st.get())
        elif op == "hold":
            res = simpy.Resource(env)
            req = res.request()
            node.ev = UP.ResourceHold(res)
            partner(lambda: res.release(req))
        elif op == "proc":
            def work():
                yield env.timeout(d) if not never else env.event()
            node.ev = env.process(work())
        made.append(node)
        return node

    def succeed(self, node, fn, p):
        if node.cancelled:
            return
        fn(**pay(p))
        # an event takes one success at a time, and keeps the payload of it
        try:
            node.ev.succeed(z="second")
            self.ctx.violate("succeeded-twice", "an event that has just succeeded accepted another success")
        except (SimulationError, RuntimeError):
            pass

    # ---- the tasks
    def make_task(self, i):
        w, ctx, env = self, self.ctx, self.env
        plan = self.plan["tasks"][i]

        class T(UP.Task):
            def task(self, *, actor):
                for k, s in enumerate(plan["steps"]):
                    where = f"task {i} step {k}"
                    made = []
                    root = w.build(actor, s["tree"], made)
                    if root.op == "proc":
                        root = Node("any", UP.Any(root.ev), [root])
                    if not (yield from w.wait(i, root, where)):
                        continue
                    for d in s["later"]:
                        due = env.now + d
                        yield UP.Wait(d)
                        ctx.check(close(env.now, due, 1e-12), "wait-time", f"{where}: {env.now} instead of {due}")
                        w.reports(root, where + f" later at {env.now}")
                    again = s["again"]
                    if again is not None:
                        pool = [root] if again == "root" else [n for n in root.all() if n.op not in ("pool", "hold", "proc")]
                        if again == "root" and any(n.op in ("pool", "hold") for n in root.all()):
                            pool = []
                        # completes anew, or as soon as what is left of it does
                        if pool:
                            node = pool[again % len(pool)] if again != "root" else root
                            if not any(n.op in ("pool", "hold") for n in node.all()):
                                for n in set(node.leaves()):
                                    if n.op == "event" and n.comp < env.now and n.manual:
                                        try:
                                            n.ev.as_event()
                                            ctx.violate("reset-unasked", f"{where}: an event with auto_reset off is awaited a second time")
                                        except UpstageError:
                                            ctx.cover("reset-by-hand")
                                        ctx.check(n.ev.is_complete() and n.ev.get_payload() == n.payload, "payload", f"{where}: after a refused second wait")
                                        n.ev.reset()
                                    if n.op == "event" and n.comp < env.now:
                                        n.comp = next((x for x in n.later if x > env.now), INF)
                                        n.payload = pay(-1)
                                    elif n.op == "kevent" and n.comp < env.now:
                                        n.comp = INF
                                tied = any(n.op in ("event", "kevent") and (n.comp == env.now or env.now in n.later) for n in node.leaves())
                                if not tied and max(node.when(), env.now) < INF:
                                    ctx.cover("waited-again")
                                    yield from w.wait(i, node, where + " again")
                    if s["drop"]:
                        for n in set(root.leaves()):
                            if n.comp > env.now and n.op not in ("proc", "pool"):
                                n.cancelled = True
                                n.ev.cancel()

            def on_interrupt(self, *, actor, cause):
                if i in w.pending and any(n.cancelled for n in w.pending[i].all()):
                    # cancelled by another task sharing the event: this one is waking up already
                    cause = "I"
                if cause != "I" and i in w.pending:
                    for n in w.pending.pop(i).all():
                        n.cancelled = True
                        if n.op == "pool":
                            n.comp, n.cancelled = INF, True
                return {"I": self.INTERRUPT.IGNORE, "E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART}[cause]

        return T

    def wait(self, i, root, where):
        ctx, env = self.ctx, self.env
        due = max(root.when(), env.now)
        for n in root.leaves():
            if n.op == "pool" and n.cancelled:
                return False
        self.pending[i] = root
        started = env.now
        value = yield root.ev
        self.pending.pop(i, None)
        if any(n.cancelled for n in root.leaves()):
            return True
        ctx.check(close(env.now, due, 1e-9), "completion-time", f"{where}: {self.show(root)} waited for at {started} completed at {env.now}, planned {due}")
        if not root.kids:
            ctx.check(root.op not in ("get", "fget", "sget", "none") or value is root.value, "value", f"{where}: {root.op} gave {value!r}")
        elif len(set(root.leaves())) > 1:
            ctx.nontrivial = True
        self.reports(root, where + f" at {env.now}", resumed=True)
        return True

    def reports(self, root, where, resumed=False):
        ctx, now = self.ctx, self.env.now
        if any(n.cancelled for n in root.leaves()):
            return
        said = {}
        for n in root.all():
            said[id(n)] = c = n.ev.processed if n.op == "proc" else n.ev.is_complete()
            t = n.when()
            sure = abs(t - now) > 1e-9
            if n is root and resumed:
                ctx.check(c, "resumed-incomplete", f"{where}: {self.show(root)}")
            elif sure:
                ctx.check(c == (t < now), "completion-report", f"{where}: node {n.op} with completion time {t} says {c} in {self.show(root)}")
            if c and n.op in ("get", "fget", "sget", "none"):
                ctx.check(n.ev.get_value() is n.value, "get-value", f"{where}: {n.op} gives {n.ev.get_value()!r}")
            if c and n.payload is not None:
                ctx.check(n.ev.get_payload() == n.payload, "payload", f"{where}: {n.ev.get_payload()} instead of {n.payload}")
        for n in root.all():
            if n.kids:
                want = (any if n.op == "any" else all)(said[id(k)] for k in n.kids)
                ctx.check(said[id(n)] == want, "composite-report", f"{where}: {n.op} says {said[id(n)]}, members {[(k.op, said[id(k)]) for k in n.kids]} in {self.show(root)}")
        ctx.log(where, [said[id(n)] for n in root.all()])

    def show(self, n):
        if n.kids:
            return f"{n.op}({', '.join(self.show(k) for k in n.kids)})"
        return f"{n.op}@{n.comp:g}"


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"], random_seed=plan["seed"]) as env:
        UP.add_stage_variable("time_unit", plan["unit"])
        World(plan, ctx, env)
        ctx.drive(env)
