"""C30: whatever fails in a model's code stops the run there and then, as it was raised; the rest goes on unharmed."""
import simpy
import upstage_des.api as UP
from upstage_des.resources.container import ContainerEmptyError, ContainerFullError
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.states import ActiveState

from dst.core import at

ID = "C30"
RUNS = {"quick": 8000, "thorough": 300000}
SHRINK = ["units", "steps", "faults", "errors", "sends", "movers", "sensors"]
RULE = ("2-6 units (tasks alone, in networks or after decisions, several on one actor) of 1-6 steps over everything a task can "
        "do, movers and sensors, and messages; 1-5 errors raised at the n-th call of user code of a unit: step, interrupt "
        "handler, decision, routine, its clean-up, sub-process, filter, sorter, recording function, rule of a state, callback "
        "of a flow, log message, choice of hop, notification; or caused by misuse. Every error must reach the caller of the "
        "run at its instant, once and of its kind; run on, all other units do what they do in the run without errors. "
        "Non-trivial: an error was raised and another unit did something later.")
REAL = ["upstage_des actors, states, tasks, networks, events, routines, containers, stores, communications, motion; simpy"]
STUB = []
ASSUME = ["SimPy hands errors of processes on as a copy of the same type and arguments"]

SITES = ["step", "step", "handler", "handler", "decide", "routine", "clean", "sub", "subany", "filter", "key", "recfn", "rule", "flow", "message", "process",
         "hop", "hop", "enter", "exit", "leave", "within", "cancel"]
OPS = ["wait", "wait", "set", "get", "put", "any", "all", "routine", "window", "sub", "subany", "fget", "sget", "rule", "flow", "event", "know", "process", "hold", "lin", "mimic",
       "finally"]
WRONG = ["yield5", "negative", "noanswer", "badknow", "full", "empty", "twice", "unknowntask", "noroom"]


class Boom(Exception):
    pass


class KeyBoom(Boom, KeyError):
    pass


class AttrBoom(Boom, AttributeError):
    pass


class ValueBoom(Boom, ValueError):
    pass


class TypeBoom(Boom, TypeError):
    pass


class RunBoom(Boom, RuntimeError):
    pass


class NotBoom(Boom, NotImplementedError):
    pass


class SimBoom(Boom, UP.SimulationError):
    def __init__(self, i):
        Exception.__init__(self, i)


class UpBoom(Boom, UP.UpstageError):
    pass


class AssertBoom(Boom, AssertionError):
    pass


BOOMS = {c.__name__: c for c in (Boom, KeyBoom, AttrBoom, ValueBoom, TypeBoom, RunBoom, NotBoom, SimBoom, UpBoom, AssertBoom)}


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0])
    actors = rng.randint(1, 3)

    def step():
        return [rng.choice(OPS), grid * rng.randint(0, 4), rng.randint(1, 3)]
    units = [dict(a=rng.randrange(actors), t=grid * rng.randint(0, 3), how=rng.choice(["alone", "net", "net", "decide", "skip", "final"]), steps=[step() for _ in range(rng.randint(1, 6))],
                  other=[step() for _ in range(rng.randint(1, 3))], queue=rng.randint(0, 2)) for _ in range(rng.randint(2, 6))]
    faults = [dict(t=grid * rng.randint(0, 16), u=rng.randrange(len(units)), ans=rng.choice("EEIRR"), depth=rng.choice([0, 0, 1, 2]), prio=rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 8))]
    sends = [dict(t=grid * rng.randint(0, 12), a=rng.randint(0, 3), b=rng.randint(0, 3), m=rng.randrange(2), lost=rng.random() < 0.1) for _ in range(rng.choice([0, 0, 2, 5]))]
    movers = [dict(t=grid * rng.randint(0, 4), at=[rng.randint(-6, 6), rng.randint(-6, 6)], path=[[rng.randint(-6, 6), rng.randint(-6, 6)] for _ in range(rng.randint(1, 3))],
                   lose=grid * rng.randint(1, 12) if rng.random() < 0.3 else None) for _ in range(rng.choice([0, 0, 2, 3]))]
    sensors = [dict(at=[rng.randint(-5, 5), rng.randint(-5, 5)], r=rng.choice([1.5, 3.0, 4.5])) for _ in range(rng.randint(1, 3))] if movers else []
    errors = []
    for _ in range(rng.randint(1, 5)):
        site = rng.choice(SITES + ["wrong", "wrong"])
        kind = "send" if site == "hop" else "mover" if site in ("enter", "exit") else "unit"
        n = {"send": len(sends), "mover": len(movers), "unit": len(units)}[kind]
        if n:
            k = rng.randrange(n)
            if kind == "unit":
                op = {"filter": "fget", "key": "sget", "clean": "routine", "within": "routine", "recfn": "set", "leave": "finally", "cancel": "know"}.get(site, site)
                if op in OPS and rng.random() < 0.7:
                    units[k]["steps"].insert(rng.randrange(len(units[k]["steps"])), [op, grid * rng.randint(1, 4), rng.randint(1, 3)])
                    if op in ("fget", "sget"):
                        units[k]["steps"].insert(0, ["put", 0.0, rng.randint(1, 3)])
                if site in ("clean", "handler", "within"):
                    faults += [dict(t=units[k]["t"] + grid * rng.randint(0, 8), u=k, ans=rng.choice("EEIRR"), depth=0, prio=1) for _ in range(2)]
            errors.append(dict(site=site, kind=kind, k=k, n=rng.choice([1, 1, 1, 2, 3, 4]), cls=rng.choice(list(BOOMS)), what=rng.choice(WRONG)))
    return dict(grid=grid, actors=actors, units=units, faults=faults, sends=sends, movers=movers, sensors=sensors, errors=errors, log=rng.random() < 0.5,
                until=grid * rng.randint(12, 40), steps_of=rng.random() < 0.3)


class Rule(ActiveState):
    def _active(self, instance):
        data = self.get_activity_data(instance)
        if data.get("started_at") is None:
            return None
        first = data.get("first", data["value"])
        data["w"].site("rule", data["u"])
        value = first + (data["now"] - data["started_at"])
        self.__set__(instance, value)
        instance._set_active_state_data(self.name, started_at=data["started_at"], first=first, w=data["w"], u=data["u"])
        return value


def recfn(k):
    def square(_t, v):
        if isinstance(v, tuple):
            v[0].site("recfn", k)
            return v[1] * v[1]
        return 0
    return square


ATTRS = {"box": UP.CommunicationStore(modes="net")}
for _k in range(6):
    ATTRS.update({f"s{_k}": UP.State(default=0, recording=True, recording_functions=[(recfn(_k), f"f{_k}")]),
                  f"r{_k}": Rule(default=0.0, recording=True), f"l{_k}": UP.LinearChangingState(default=0.0, recording=True), f"m{_k}": UP.State(default=0.0)})
Rig = type("Rig", (UP.Actor,), ATTRS)


class Mover(UP.Actor):
    loc = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)


class Sensor(UP.Actor):
    spot = UP.State()
    reach = UP.State()

    def entity_entered_range(self, e):
        self.w.note(("mover", e.k), "enter", self.k)
        self.w.site("enter", e.k)

    def entity_exited_range(self, e):
        self.w.note(("mover", e.k), "exit", self.k)
        self.w.site("exit", e.k)


class Hops(UP.RoutingTableCommsManager):
    def _do_transmit(self, message, destination):
        p = super()._do_transmit(message, destination)
        self.w.of[p] = message.content.data["k"]
        return p

    def select_hop(self, source, dest, ignore_nodes=None):
        self.w.site("hop", self.w.of[self.env.active_process])
        return super().select_hop(source, dest, ignore_nodes)


class Clean(UP.Routine):
    def __init__(self, w, u, d):
        super().__init__()
        self.w, self.u, self.d = w, u, d

    def run(self):
        yield UP.Wait(self.d / 2)
        self.w.site("routine", self.u)
        got = UP.Get(self.w.store[self.u])
        try:
            yield UP.Any(got, UP.Wait(self.d / 2))
        finally:
            self.w.site("within", self.u)
        if not got.is_complete():
            got.cancel()
        return "routine"

    def cancel(self):
        self.w.note(("unit", self.u), "clean")
        self.w.site("clean", self.u)
        yield UP.Wait(0.0)


class World:
    def __init__(self, plan, ctx, errors):
        self.plan, self.ctx, self.errors = plan, ctx, errors
        self.calls, self.pending, self.hit, self.logs = {}, {}, {}, {}
        self.of, self.over = {}, False

    def __deepcopy__(self, memo):
        return self

    # ------------------------------------------------ what fails
    def site(self, site, k):
        if self.over:
            return      # what is left of the run is thrown away
        kind = "send" if site == "hop" else "mover" if site in ("enter", "exit") else "unit"
        c = self.calls[(site, k)] = self.calls.get((site, k), 0) + 1
        for i, e in enumerate(self.errors):
            if (e["site"], e["kind"], e["k"], e["n"]) == (site, kind, k, c):
                cls = BOOMS[e["cls"]]
                self.raises(i, (kind, k), cls)
                raise cls(i)

    def raises(self, i, unit, cls):
        """About to raise this error."""
        self.pending[i] = (self.env.now, cls)
        self.hit.setdefault(unit, self.env.now)
        self.ctx.fault(self.errors[i]["site"] if issubclass(cls, Boom) else "misuse-" + self.errors[i]["what"])

    def wrong(self, u):
        """The misuse planned for this step of the unit, if any."""
        c = self.calls[("wrong", u)] = self.calls.get(("wrong", u), 0) + 1
        for i, e in enumerate(self.errors):
            if (e["site"], e["k"], e["n"]) == ("wrong", u, c):
                return i, e["what"]
        return None, None

    def note(self, unit, *what):
        if self.over:
            return
        self.logs.setdefault(unit, []).append((self.env.now,) + what)
        if self.errors:
            self.ctx.log(self.env.now, unit, *what)
            self.ctx.nontrivial = self.ctx.nontrivial or (bool(self.hit) and unit not in self.hit)

    # ------------------------------------------------ tasks
    def make(self, u, steps):
        w, name = self, ("unit", u)

        class T(UP.Task):
            def task(self, *, actor):
                w.procs[u] = self.env.active_process
                w.note(name, "start", type(self).__name__)
                for i, (op, d, n) in enumerate(steps):
                    w.site("step", u)
                    i_err, what = w.wrong(u)
                    if what is not None:
                        yield from w.misuse(self, actor, u, i_err, what)
                    got = yield from w.step(self, actor, u, op, d, n)
                    w.note(name, "step", i, op, got)
                yield UP.Wait(w.plan["grid"])
                actor.deactivate_all_states(task=self)
                actor.deactivate_all_mimic_states(task=self)
                w.note(name, "end", getattr(actor, f"s{u}") if not isinstance(getattr(actor, f"s{u}"), tuple) else getattr(actor, f"s{u}")[1], actor.__dict__[f"r{u}"], getattr(actor, f"l{u}"))

            def on_interrupt(self, *, actor, cause):
                w.note(name, "interrupted", cause["ans"])
                if cause["ans"] != "I":
                    w.waiting[u] = None
                w.site("handler", u)
                for i, e in enumerate(w.errors):
                    if e["site"] == "wrong" and e["what"] == "noanswer" and e["k"] == u and not w.once.get(i):
                        w.once[i] = True
                        w.raises(i, name, UP.SimulationError)
                        return None
                return {"E": self.INTERRUPT.END, "I": self.INTERRUPT.IGNORE, "R": self.INTERRUPT.RESTART}[cause["ans"]]

        return T

    def misuse(self, task, actor, u, i, what):
        name = ("unit", u)
        if what == "yield5":
            self.raises(i, name, UP.SimulationError)
            yield 5
        elif what == "negative":
            self.raises(i, name, UP.SimulationError)
            yield UP.Wait(-1.0)
        elif what == "badknow":
            self.raises(i, name, UP.SimulationError)
            actor.clear_knowledge(f"none{u}")
        elif what == "twice":
            self.raises(i, name, UP.SimulationError)
            actor.set_knowledge(f"x{u}", 1)
            actor.set_knowledge(f"x{u}", 2)
        elif what in ("full", "empty"):
            tank = UP.ContinuousContainer(self.env, 4.0, init=2.0)
            self.raises(i, name, ContainerFullError if what == "full" else ContainerEmptyError)
            self.pending[i] = (self.env.now + 0.5, self.pending[i][1])
            flow = (tank.put if what == "full" else tank.get)(4.0, 3.0)
            yield UP.Wait(1.0)
            self.ctx.check(tank.level == (4.0 if what == "full" else 0.0) and not flow.process.is_alive, "limit-not-kept", str(tank.level))
        elif what == "unknowntask" and task._network_name is not None:
            self.raises(i, name, KeyError)
            self.pending[i] = (None, KeyError)
            task.clear_actor_task_queue(actor)
            task.set_actor_task_queue(actor, ["nothing"])
        elif what == "noroom":
            self.raises(i, name, ValueError)
            res = UP.ReserveContainer(self.env, init=1.0, capacity=1.0)
            res.put(1.0)

    def step(self, task, actor, u, op, d, n):
        store, grid = self.store[u], self.plan["grid"]
        if op == "wait":
            yield UP.Wait(d)
        elif op == "set":
            setattr(actor, f"s{u}", (self, n))
        elif op in ("get", "fget", "sget"):
            if op == "get":
                get = UP.Get(store)
            elif op == "fget":
                get = UP.FilterGet(self.fstore[u], filter=lambda x: (self.site("filter", u), x == n)[1])
            else:
                get = UP.SortedFilterGet(self.sstore[u], filter=lambda x: x > 0, sorter=lambda x: (self.site("key", u), (x,))[1])
            yield UP.Any(get, UP.Wait(d + grid))
            if not get.is_complete():
                get.cancel()
                return None
            return get.get_value()
        elif op == "put":
            for st in (store, self.fstore[u], self.sstore[u]):
                yield UP.Put(st, n)
        elif op == "any":
            yield UP.Any(UP.Wait(d), UP.All(UP.Wait(grid), UP.Wait(d + 1)))
        elif op == "all":
            yield UP.All(UP.Wait(d), UP.Any(UP.Wait(grid), UP.Event()))
        elif op == "routine":
            return (yield Clean(self, u, d))
        elif op == "window":
            yield UP.Put(store, n)
            return repr((yield UP.WindowedGet(store, d)))
        elif op in ("sub", "subany"):
            proc = self.sub(u, d, op)
            if op == "sub":
                return (yield proc)
            yield UP.Any(proc, UP.Wait(grid * n))
            return proc.triggered and not proc.is_alive
        elif op == "process":
            self.alone(u, d)
        elif op == "rule":
            if f"r{u}" not in actor._active_states:
                actor.activate_state(state=f"r{u}", task=task, w=self, u=u)
            yield UP.Wait(d)
            return getattr(actor, f"r{u}")
        elif op == "lin":
            if f"l{u}" not in actor._active_states:
                actor.activate_linear_state(state=f"l{u}", rate=float(n), task=task)
            yield UP.Wait(d)
        elif op == "mimic":
            if f"m{u}" not in actor._mimic_states:
                actor.activate_mimic_state(self_state=f"m{u}", mimic_state=f"l{u}", mimic_actor=actor, task=task)
            yield UP.Wait(d)
            return getattr(actor, f"m{u}")
        elif op == "flow":
            tank = UP.ContinuousContainer(self.env, 4.0, init=2.0, error_empty=False, error_full=False)
            tank.put(4.0, 3.0, custom_callbacks=[lambda: self.site("flow", u), lambda: self.note(("unit", u), "full")])
            yield UP.Wait(grid)
            return tank.level
        elif op in ("event", "know"):
            ev = actor.create_knowledge_event(name=f"e{u}") if op == "know" and actor.get_knowledge(f"e{u}") is None else UP.Event()

            self.waiting[u] = ev

            def fire():
                if self.waiting.get(u) is not ev or ev._event.triggered:
                    return
                self.site("cancel", u)
                if op == "know" and actor.get_knowledge(f"e{u}") is ev:
                    actor.succeed_knowledge_event(name=f"e{u}", n=n)
                else:
                    ev.succeed(n=n)
            at(self.env, self.env.now + d, fire)
            yield UP.Any(ev, UP.Wait(d + grid))
            self.waiting[u] = None
            done = ev.is_complete()
            if actor.get_knowledge(f"e{u}") is ev:
                actor.clear_knowledge(f"e{u}")
            return done, ev.get_payload() if done else None
        elif op == "hold":
            hold = UP.ResourceHold(self.res[u])
            yield hold
            yield UP.Wait(d)
            yield hold
        elif op == "finally":
            try:
                yield UP.Wait(d)
            finally:
                self.note(("unit", u), "finally")
                self.site("leave", u)

    @UP.process
    def sub(self, u, d, op):
        try:
            yield self.env.timeout(d)
        except simpy.Interrupt:
            self.note(("unit", u), "sub-interrupted")
            return
        self.site(op, u)
        return "sub"

    @UP.process
    def alone(self, u, d):
        yield self.env.timeout(d)
        self.note(("unit", u), "alone")
        self.site("process", u)

    # ------------------------------------------------ the whole
    def start(self, u):
        spec = self.plan["units"][u]
        actor = self.rigs[spec["a"] % len(self.rigs)]
        w = self
        A, B = self.make(u, spec["steps"]), self.make(u, spec["other"])
        A.__name__, B.__name__ = f"A{u}", f"B{u}"
        if spec["how"] == "alone":
            A().run(actor=actor)
            return

        class D(UP.DecisionTask):
            DO_NOT_HOLD = spec["how"] == "skip"

            def make_decision(self, *, actor):
                w.note(("unit", u), "decide")
                w.site("decide", u)
                if not actor.get_task_queue(f"n{u}"):
                    self.set_actor_task_queue(actor, ["A"] * spec["queue"] + ["B"])

        class End(UP.TerminalTask):
            def log_message(self, *, actor):
                w.site("message", u)
                return "over"

        first = {"net": "A", "decide": "D", "skip": "D", "final": "A"}[spec["how"]]
        links = {"A": UP.TaskLinks(default="E" if spec["how"] == "final" else "B", allowed=["A", "B"]), "B": UP.TaskLinks(default="A" if first == "A" else "D", allowed=["A", "D"]),
                 "D": UP.TaskLinks(default="A", allowed=["A", "B"]), "E": UP.TaskLinks(default="E", allowed=["E"])}
        net = UP.TaskNetworkFactory(f"n{u}", {"A": A, "B": B, "D": D, "E": End}, links).make_network()
        actor.add_task_network(net)
        actor.start_network_loop(f"n{u}", init_task_name=first)

    def interrupt(self, f):
        u = f["u"] % len(self.plan["units"]) if self.plan["units"] else None
        p = self.procs.get(u)
        if p is not None and p.is_alive:
            p.interrupt(cause=f)

    def send(self, k):
        s = self.plan["sends"][k]
        a, b = self.rigs[s["a"] % len(self.rigs)], self.rigs[s["b"] % len(self.rigs)]
        m = self.managers[s["m"]]
        msg = UP.Message(sender=a, content=UP.MessageContent(data={"k": k}), destination=self.deaf if s["lost"] and not s["m"] else b)
        if s["lost"] and not s["m"]:
            self.raises_lost(1000 + k, k)
        m.make_put(msg, a, b).as_event()

    def raises_lost(self, i, k):
        self.pending[i] = (self.env.now + 0.25, UP.SimulationError)
        self.hit.setdefault(("send", k), self.env.now)
        if self.errors:
            self.ctx.fault("misuse-no-store")

    @UP.process
    def collect(self, j):
        while True:
            m = yield self.rigs[j].box.get()
            self.note(("send", m.content.data["k"]), "arrived", j)


def simulate(plan, ctx, errors):
    w = World(plan, ctx, errors)
    with ctx.context() as env:
        w.env, w.procs, w.once, w.waiting = env, {}, {}, {}
        n = len(plan["units"])
        w.store, w.res = [simpy.Store(env) for _ in range(n)], [simpy.Resource(env) for _ in range(n)]
        w.fstore, w.sstore = [simpy.FilterStore(env) for _ in range(n)], [UP.SortedFilterStore(env) for _ in range(n)]
        w.rigs = [Rig(name=f"r{i}", debug_log=plan["log"]) for i in range(max(1, plan["actors"]))]
        w.deaf = Mover(name="deaf", loc=UP.CartesianLocation(0, 0))
        for u, spec in enumerate(plan["units"]):
            at(env, spec["t"], lambda u=u: w.start(u))
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: w.interrupt(f), f["depth"], f["prio"])
        if plan["sends"]:
            hops = Hops(name="h", mode="net", send_time=0.5)
            hops.w = w
            for i, a in enumerate(w.rigs):
                for b in w.rigs[i + 1:]:
                    hops.connect_nodes(a, b)
            w.managers = [UP.PointToPointCommsManager(name="p", mode="net", send_time=0.25), hops]
            for m in w.managers:
                m.run()
            for j in range(len(w.rigs)):
                w.collect(j)
            for k, s in enumerate(plan["sends"]):
                at(env, s["t"], lambda k=k: w.send(k))
        if plan["movers"]:
            mm = UP.SensorMotionManager(cartesian_linear_intersection)
            UP.add_stage_variable("motion_manager", mm)
            for k, s in enumerate(plan["sensors"]):
                x = Sensor(name=f"s{k}", spot=UP.CartesianLocation(*s["at"]), reach=s["r"])
                x.w, x.k = w, k
                mm.add_sensor(x, location_attr_name="spot", radius_attr_name="reach")
            w.movers = []
            for k, m in enumerate(plan["movers"]):
                x = Mover(name=f"m{k}", loc=UP.CartesianLocation(*m["at"]))
                x.k = k
                w.movers.append(x)

                def go(k=k, m=m):
                    fly(w, k, m)
                at(env, m["t"], go)
                if m["lose"] is not None:
                    at(env, m["lose"], lambda x=x: setattr(x, "seen", False))
        while True:
            try:
                if plan["steps_of"]:
                    while env._queue and env.peek() < plan["until"]:
                        env.step()
                else:
                    env.run(until=plan["until"])
                break
            except (Boom, UP.SimulationError, KeyError, ValueError, ContainerFullError, ContainerEmptyError) as e:
                w.caught(e)
        w.over = True
        ctx.check(not [p for p in w.pending.values() if p[0] is not None and p[0] < plan["until"]], "error-lost", lambda: f"raised (time, kind) {w.pending}, never reached the caller of run")
    return w


def fly(w, k, m):
    class Fly(UP.Task):
        def task(self, *, actor):
            path = [UP.CartesianLocation(*p) for p in m["path"]]
            here, dist = UP.CartesianLocation(*m["at"]), 0.0
            for p in path:
                dist += p - here
                here = p
            actor.activate_location_state(state="loc", speed=1.0, waypoints=path, task=self)
            yield UP.Wait(dist)
            actor.deactivate_all_states(task=self)
            w.note(("mover", k), "there")

    Fly().run(actor=w.movers[k])


def caught(w, e):
    ctx, now = w.ctx, w.env.now
    fits = [i for i, (t, cls) in w.pending.items() if type(e) is cls and (t is None or abs(t - now) < 1e-9) and (not issubclass(cls, Boom) or e.args == (i,))]
    ctx.check(fits, "wrong-error", lambda: f"t={now}: {type(e).__name__}{e.args} reached the caller, raised and not seen yet: {w.pending}")
    w.pending.pop(fits[0])
    ctx.cover("reached")


World.caught = caught


def run(plan, ctx):
    a = simulate(plan, ctx, plan["errors"])
    b = simulate(plan, ctx, [])
    for unit in sorted(set(a.logs) | set(b.logs)):
        x, y, t = a.logs.get(unit, []), b.logs.get(unit, []), a.hit.get(unit)
        if t is not None:
            x, y = [e for e in x if e[0] < t], [e for e in y if e[0] < t]
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            ctx.violate("harmed", f"{unit} entry {i}: {x[i:i+3]} where others failed at {a.hit}, {y[i:i+3]} without")
    if a.hit:
        ctx.cover("with-errors")
