"""C25: knowledge is a faithful per-actor store and its events wake who waits."""
import upstage_des.api as UP

from dst.core import INF, at

ID = "C25"
RUNS = {"quick": 71000, "thorough": 800000}
SHRINK = ["ops", "tasks", "faults", "names", "init"]
RULE = ("1-3 actors and up to 5 tasks (and processes outside of tasks) set, overwrite, clear, fetch and fetch-and-clear "
        "knowledge singly and in bulk, by actor and by task methods, create knowledge events, wait on them alone and inside "
        "any/all, alias and overwrite them, succeed them with payloads at colliding instants and get interrupted with all "
        "answers; each operation's result and all knowledge after it are compared with a reference dictionary per actor, "
        "and each wait with the events it may be woken by. Non-trivial: an event woke a task and an operation was refused.")
REAL = ["upstage_des actor knowledge, task convenience methods, events, interrupts; simpy"]
STUB = ["none"]
ASSUME = ["a bulk operation is its single operations in order, ending at the first that is refused",
          "an event succeeded while nobody waits is armed again by the next wait (documented auto-reset)",
          "cancelling an event that several tasks wait on wakes them all (documented)"]

NAMES = ["a", "b", "c", "e", "f"]


class Person(UP.Actor):
    note = UP.State(default=0)


class Val:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"v{self.k}"

    def __eq__(self, other):     # equal to every other, so identity matters
        return isinstance(other, Val)

    __hash__ = None


def gen_op(rng, na, intask):
    k = rng.random()
    via = rng.choice(["actor", "task"]) if intask else "actor"
    a = rng.randrange(na)
    name = rng.choice(NAMES)
    if k < 0.22:
        return dict(op="set", a=a, via=via, name=name, val=rng.choice(["new", "new", "new", "none", "list", "event", "held", "same"]), over=rng.random() < 0.35)
    if k < 0.32:
        return dict(op="clear", a=a, via=via, name=name)
    if k < 0.42:
        return dict(op="get", a=a, via=via, name=name, must=rng.random() < 0.5)
    if k < 0.50:
        return dict(op="gac", a=a, via=via, name=name)
    if k < 0.62:
        return dict(op=rng.choice(["bset", "bclear", "bget", "bgac"]), a=a, via=via, over=rng.random() < 0.4, must=rng.random() < 0.5, same=rng.random() < 0.2,
                    names=[rng.choice(NAMES) for _ in range(rng.randint(0, 4))], shape=rng.choice(["list", "tuple", "iter", "keys"]))
    if k < 0.74:
        return dict(op="succeed", a=a, name=rng.choice(["e", "f", "e", "f", name]), p=rng.randint(0, 9), pk=rng.choice(["x", "cause", "value", "caller"]))
    if k < 0.80:
        return dict(op="create", a=a, name=rng.choice(["e", "f", name]))
    if k < 0.84:
        return dict(op="mutate", a=a)
    if k < 0.87:
        return dict(op="bad", a=a, name=name)
    return None


def gen_step(rng, na, grid):
    r = rng.random()
    if r < 0.5:
        o = gen_op(rng, na, True)
        if o:
            return o
    if r < 0.62:
        return dict(op="wait", d=grid * rng.choice([0, 1, 1, 2, 3]))
    return dict(op="hold", mode=rng.choice(["one", "one", "one", "any", "all"]), a=rng.choice([None, None, rng.randrange(na)]), name=rng.choice(["e", "e", "f", "a"]),
                fresh=rng.random() < 0.8, d=grid * rng.choice([1, 2, 3, 4]), gap=grid * rng.choice([0, 0, 0, 1]), alias=rng.choice([None, None, "b", "f"]))


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0])
    na = rng.randint(1, 3)
    big = 2 if tier == "thorough" and rng.random() < 0.4 else 1
    tasks = [dict(a=rng.randrange(na), t=grid * rng.choice([0, 0, 1, 2]), ops=[gen_step(rng, na, grid) for _ in range(rng.randint(1, 7 * big))])
             for _ in range(rng.randint(1, 4 * big))]
    ops = []
    for _ in range(rng.randint(3, 16 * big)):
        o = gen_op(rng, na, False) or dict(op="succeed", a=rng.randrange(na), name=rng.choice(["e", "f"]), p=rng.randint(0, 9), pk="x")
        o.update(t=grid * rng.randint(0, 12) + rng.choice([0, 0, 0.17]), depth=rng.choice([0, 0, 1, 2]), prio=rng.choice([0, 1, 2]))
        ops.append(o)
    faults = [dict(t=grid * rng.randint(0, 12) + rng.choice([0, 0, 0.17]), task=rng.randrange(len(tasks)), ans=rng.choice("EERRI"),
                   depth=rng.choice([0, 0, 1, 2]), prio=rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    return dict(n=na, t0=rng.choice([0.0, 0.0, 7.5]), tasks=tasks, ops=ops, faults=faults, debug=rng.random() < 0.7,
                init=[[rng.randrange(na), rng.choice(NAMES)] for _ in range(rng.randint(0, 4))])


class Ev:
    """What is known of an event."""

    def __init__(self, ev):
        self.ev = ev
        self.hits = []       # (time, payload) of successes
        self.cancels = []
        self.spent = False


class Job(UP.Task):
    def task(self, *, actor):
        w, k = self.w, self.k
        w.runs[k] += 1
        run = w.runs[k]
        for i, s in enumerate(w.prog[k]["ops"]):
            if run > 1 and i < w.at[k]:
                continue
            w.at[k] = i
            if s["op"] == "wait":
                w.waiting[k] = dict(mode="wait", until=w.env.now + s["d"], evs=[])
                yield UP.Wait(s["d"])
                w.resumed(k)
            elif s["op"] == "hold":
                ev = w.event_for(self, actor, s)
                if ev is None:
                    continue
                if s["gap"]:
                    w.waiting[k] = dict(mode="wait", until=w.env.now + s["gap"], evs=[])
                    yield UP.Wait(s["gap"])
                    w.resumed(k)
                e = w.wrap(ev)
                w.hold(k, e, s)
                if s["mode"] == "one":
                    yield ev
                elif s["mode"] == "any":
                    yield UP.Any(ev, UP.Wait(s["d"]))
                else:
                    yield UP.All(UP.Wait(s["d"]), ev)
                w.resumed(k)
                if e.hits and e.hits[-1][0] == w.env.now and ev.is_complete():
                    w.ctx.check(ev.get_payload() == e.hits[-1][1], "payload", f"{ev.get_payload()} instead of {e.hits[-1][1]}")
                    w.woken += 1
            else:
                w.op(s, self)
        w.at[k] = len(w.prog[k]["ops"])

    def on_interrupt(self, *, actor, cause):
        e = (self.w.waiting[self.k] or {}).get("ev")
        if e is not None and e.cancels and e.cancels[-1] == self.w.env.now:
            cause = "I"     # cancelling what another task just cancelled is refused (pinned by test_event.py)
        self.w.interrupted(self.k, actor, cause)
        return {"E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART, "I": self.INTERRUPT.IGNORE}[cause]


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env, self.prog = plan, ctx, env, plan["tasks"]
        self.count = 0
        self.refused = self.woken = 0
        self.know = [{} for _ in range(plan["n"])]
        for a, n in plan["init"]:
            self.know[a][n] = self.fresh()
        given = [dict(k) for k in self.know]
        self.actors = [Person(name="p", debug_log=plan["debug"], initial_knowledge=g if g else None) for g in given]
        for g in given:
            g.clear()       # the caller's own dictionary
        self.events = {}
        n = len(self.prog)
        self.runs, self.at, self.waiting, self.procs = [0] * n, [0] * n, [None] * n, [None] * n
        for k, t in enumerate(self.prog):
            at(env, plan["t0"] + t["t"], lambda k=k: self.launch(k))
        for o in plan["ops"]:
            at(env, plan["t0"] + o["t"], lambda o=o: self.op(o, None), o["depth"], o["prio"])
        for f in plan["faults"]:
            at(env, plan["t0"] + f["t"], lambda f=f: self.interrupt(f), f["depth"], f["prio"])
        env._hooks.append(self.settled)

    def fresh(self):
        self.count += 1
        return Val(self.count)

    def launch(self, k):
        t = Job()
        t.w, t.k = self, k
        self.procs[k] = t.run(actor=self.actors[self.prog[k]["a"]])

    def wrap(self, ev):
        return self.events.setdefault(id(ev), Ev(ev))

    # -- waiting
    def event_for(self, task, actor, s):
        a = self.prog[task.k]["a"] if s["a"] is None else s["a"]
        act, know = self.actors[a], self.know[a]
        if s["fresh"]:
            if s["name"] in know:
                self.op(dict(op="create", a=a, name=s["name"]), task)
                self.op(dict(op="clear", a=a, name=s["name"], via="task"), task)
            ev = act.create_knowledge_event(name=s["name"])
            self.ctx.check(isinstance(ev, UP.Event), "create", f"{ev!r}")
            know[s["name"]] = ev
        else:
            ev = know.get(s["name"])
            if not isinstance(ev, UP.Event):
                return None
        if s["alias"] and s["alias"] not in know:
            act.set_knowledge(s["alias"], ev)
            know[s["alias"]] = ev
            self.ctx.cover("alias")
        self.compare("event_for")
        return ev

    def hold(self, k, e, s):
        now = self.env.now
        ev = e.ev
        if e.spent and ev.is_complete():
            e.spent = False      # armed again
            self.ctx.cover("rearmed")
        hit = now if e.spent else None
        self.waiting[k] = dict(mode=s["mode"], ev=e, hit=hit, until=now + s["d"], since=now, evs=[e])
        self.ctx.cover("hold-" + s["mode"])

    def due(self, k):
        w = self.waiting[k]
        if w["mode"] == "wait":
            return w["until"]
        hit = w["hit"] if w["hit"] is not None else INF
        if w["mode"] == "one":
            return hit
        return min(hit, w["until"]) if w["mode"] == "any" else max(hit, w["until"])

    def resumed(self, k):
        due = self.due(k)
        self.ctx.check(abs(due - self.env.now) < 1e-9, "woken", lambda: f"task {k} resumed at {self.env.now}, due {due} ({self.waiting[k]['mode']})")
        self.waiting[k] = None
        self.ctx.log("resumed", k, self.env.now)

    def fire(self, e, cancel=False):
        e.spent = True
        for w in self.waiting:
            if w and e in w["evs"] and w["hit"] is None:
                w["hit"] = self.env.now

    # -- operations
    def op(self, o, task):
        ctx = self.ctx
        a, know = self.actors[o["a"]], self.know[o["a"]]
        log0 = len(a.get_log())
        via = task if o.get("via") == "task" else None
        kind = o["op"]
        calls, exp, err = 0, None, None
        fn = None
        if kind == "set":
            v = {"new": lambda: self.fresh(), "none": lambda: None, "list": lambda: [1], "event": lambda: UP.Event(), "same": lambda: know.get(o["name"], 0),
                 "held": lambda: next((e.ev for e in self.events.values()), None)}[o["val"]]()
            fn = (lambda: via.set_actor_knowledge(a, o["name"], v, o["over"])) if via else (lambda: a.set_knowledge(o["name"], v, overwrite=o["over"], caller="me"))
            err = o["name"] in know and not o["over"]
            if not err:
                know[o["name"]] = v
            calls = [o["name"]]
        elif kind in ("clear", "gac"):
            n = o["name"]
            if kind == "clear":
                fn = (lambda: via.clear_actor_knowledge(a, n)) if via else (lambda: a.clear_knowledge(n, "me"))
            else:
                fn = (lambda: via.get_and_clear_actor_knowledge(a, n)) if via else (lambda: a.get_and_clear_knowledge(n, "me"))
            err = n not in know
            if not err:
                exp = know.pop(n)
                exp = exp if kind == "gac" else None
            calls = [n]
            if err and kind == "gac":
                calls = None
        elif kind == "get":
            fn = (lambda: via.get_actor_knowledge(a, o["name"], o["must"])) if via else (lambda: a.get_knowledge(o["name"], must_exist=o["must"]))
            err = o["must"] and o["name"] not in know
            exp = know.get(o["name"])
            calls = []
        elif kind == "bset":
            new = {n: know[n] if o.get("same") and n in know else self.fresh() for n in o["names"]}
            fn = (lambda: via.set_actor_bulk_knowledge(a, new, o["over"])) if via else (lambda: a.set_bulk_knowledge(new, o["over"], "me"))
            calls, err = [], False
            for n, v in new.items():
                calls.append(n)
                if n in know and not o["over"]:
                    err = True
                    break
                know[n] = v
        elif kind in ("bclear", "bgac", "bget"):
            names = list(o["names"])
            if o["shape"] == "keys":
                names = list(dict.fromkeys(names))
            given = {"list": lambda: list(names), "tuple": lambda: tuple(names), "iter": lambda: iter(names), "keys": lambda: dict.fromkeys(names).keys()}[o["shape"]]()
            exp, calls, err = {}, [], False
            if kind == "bget":
                fn = (lambda: via.get_actor_bulk_knowledge(a, given, o["must"])) if via else (lambda: a.get_bulk_knowledge(given, o["must"]))
                err = o["must"] and any(n not in know for n in names)
                exp = {n: know.get(n) for n in names}
            else:
                if kind == "bclear":
                    fn = (lambda: via.clear_actor_bulk_knowledge(a, given)) if via else (lambda: a.clear_bulk_knowledge(given, "me"))
                else:
                    fn = (lambda: via.get_and_clear_actor_bulk_knowledge(a, given)) if via else (lambda: a.get_and_clear_bulk_knowledge(given, "me"))
                for n in names:
                    if n not in know:
                        err = True
                        if kind == "bclear":
                            calls.append(n)
                        break
                    calls.append(n)
                    exp[n] = know.pop(n)
                if kind == "bclear":
                    exp = None
        elif kind == "succeed":
            ev = know.get(o["name"])
            payload = {o["pk"]: o["p"]}
            fn = lambda: a.succeed_knowledge_event(name=o["name"], **payload)  # noqa: E731
            calls = None
            if not isinstance(ev, UP.Event):
                err = True
            else:
                e = self.wrap(ev)
                err = e.spent
                if not err:
                    del know[o["name"]]
                    e.hits.append((self.env.now, payload))
                    self.fire(e)
                    ctx.fault("success")
        elif kind == "create":
            fn = lambda: a.create_knowledge_event(name=o["name"])  # noqa: E731
            err = o["name"] in know
            calls = None
            if not err:
                exp = "event"
        elif kind == "bad":
            # an unusable success: knowledge that is not an event, or a name without knowledge
            if isinstance(know.get(o["name"]), UP.Event):
                return
            fn, err, calls = (lambda: a.succeed_knowledge_event(name=o["name"])), True, None
        elif kind == "mutate":
            # what is handed out in bulk is the caller's
            a.get_bulk_knowledge(NAMES).clear()
            self.compare("mutate")
            return
        ctx.log(kind, o.get("name"), self.env.now)
        ctx.cover(kind)
        try:
            got = fn()
        except UP.SimulationError as e:
            ctx.check(err, "refused", lambda: f"{o} refused: {e}")
            self.refused += 1
            ctx.fault("refused-" + kind)
            self.compare(o)
            self.check_log(a, log0, calls, via)
            return
        ctx.check(not err, "accepted", f"{o} should be refused")
        if exp == "event":
            ctx.check(isinstance(got, UP.Event) and not got.is_complete(), "create", f"{got!r}")
            know[o["name"]] = got
            self.wrap(got)
        elif isinstance(exp, dict):
            ctx.check(got.keys() == exp.keys() and all(got[n] is exp[n] for n in exp), "result", lambda: f"{o}: {got} instead of {exp}")
        else:
            ctx.check(got is exp, "result", lambda: f"{o}: {got} instead of {exp}")
        self.compare(o)
        self.check_log(a, log0, calls, via)

    def check_log(self, a, log0, calls, via):
        if calls is None:
            return
        new = a.get_log()[log0:]
        if not self.plan["debug"]:
            calls = []
        self.ctx.check(len(new) == len(calls) and all(f"'{n}" in m[1] and m[0] == self.env.now and ("Job" if via else "me") in m[1] for n, m in zip(calls, new)),
                       "log", lambda: f"log {new} for {calls}")

    def compare(self, why):
        for k, (a, know) in enumerate(zip(self.actors, self.know)):
            got = a.get_bulk_knowledge(NAMES)
            for n in NAMES:
                self.ctx.check(got[n] is know.get(n), "knowledge", lambda: f"t={self.env.now} actor {k} {n}: {got[n]} instead of {know.get(n)} after {why}")
                try:
                    a.get_knowledge(n, must_exist=True)
                    there = True
                except UP.SimulationError:
                    there = False
                self.ctx.check(there == (n in know), "existence", lambda: f"actor {k} {n}: {there} after {why}")

    # -- faults
    def interrupt(self, f):
        p = self.procs[f["task"]]
        if p is not None and p.is_alive and self.waiting[f["task"]] is not None:
            self.ctx.fault("interrupt-" + f["ans"])
            p.interrupt(f["ans"])

    def interrupted(self, k, actor, cause):
        w = self.waiting[k]
        if w is None or cause == "I":
            return
        self.waiting[k] = None
        know = self.know[self.prog[k]["a"]]
        if w["mode"] == "one":
            for n in [n for n, v in know.items() if v is w["ev"].ev]:
                del know[n]
                self.ctx.cover("removed-by-interrupt")
        if w["mode"] != "wait" and not w["ev"].spent:
            w["ev"].cancels.append(self.env.now)
            self.fire(w["ev"])

    def settled(self):
        self.compare("instant")
        for k, w in enumerate(self.waiting):
            if w is not None:
                due = self.due(k)
                self.ctx.check(due > self.env.now + 1e-9, "not-woken", lambda: f"task {k} should have resumed at {due}, now {self.env.now}")


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"]) as env:
        w = World(plan, ctx, env)
        w.compare("start")
        ctx.drive(env)
        w.settled()
        ctx.nontrivial = w.woken > 0 and w.refused > 0
