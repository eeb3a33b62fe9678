"""C08: task networks run exactly the queued tasks, then the defaults, in order."""
import upstage_des.api as UP
from upstage_des.base import SimulationError, UpstageError

from dst.core import at

ID = "C08"
RUNS = {"quick": 8000, "thorough": 400000}
SHRINK = ["nets", "faults", "decide", "queue"]
RULE = ("1-3 actors with 1-3 task networks each (some sharing one factory and name) of waiting, event-waiting, "
        "zero-time, empty and decision tasks (held and unheld) plus the factories' ready-made looping and terminating "
        "networks; queues set and cleared and networks interrupted (answers end/ignore/restart, handlers re-queueing) "
        "from tasks, decisions, handlers and from outside at coarse times, early/late/inside an instant. The running "
        "task, the queue and the starts are compared event by event with a model of the network. Non-trivial: a queue "
        "change or interrupt took effect on a running network.")
REAL = ["upstage_des task_network, actor queues, task, decision and terminal tasks, events, nucleus not used"]
STUB = []
ASSUME = ["between two tasks of a network (same instant) there is no running task to report or interrupt"]

NAMES = ["A", "B", "C", "Ev", "Zero", "Empty", "Hold", "Skip"]
LAST = "END_FINAL"  # a terminal task of one's own
LONG = ["A", "B", "C", "Ev"]


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0, 1.0])
    actors = rng.randint(1, 3)
    kinds = []
    for _ in range(rng.randint(1, 3)):  # factories
        kind = rng.choice(["free"] * 5 + ["single_looping", "single_terminating", "ordered_loop", "ordered_terminating"])
        if kind == "free":
            links = {n: rng.choice(LONG) for n in NAMES}
            if rng.random() < 0.25:
                links[rng.choice(LONG)] = LAST
            kinds.append(dict(kind=kind, links=links, dur={n: grid * rng.randint(1, 4) for n in LONG}))
        else:
            order = rng.sample(LONG, 1) if kind.startswith("single") else rng.sample(NAMES, rng.randint(1, 6))
            if not set(order) & set(LONG):
                order[rng.randrange(len(order))] = rng.choice(LONG)
            kinds.append(dict(kind=kind, order=order, dur={n: grid * rng.randint(1, 4) for n in LONG}))
    nets = []
    for a in range(actors):
        for _ in range(rng.randint(1, 3)):
            f = rng.randrange(len(kinds))
            ns = names_of(kinds[f])
            nets.append(dict(a=a, f=f, t0=grid * rng.choice([0, 0, 0, 1, 2]), init=rng.choice(ns), again=rng.choice([None, None, None, "plain", "queued"]),
                             queue=[rng.choice(ns) for _ in range(rng.choice([0, 0, 1, 3, 6]))],
                             decide=[op(rng, grid, True) for _ in range(rng.randint(0, 6))],
                             inside=[op(rng, grid) if rng.random() < 0.4 else None for _ in range(6)],
                             handler=[op(rng, grid, True) if rng.random() < 0.5 else None for _ in range(6)]))
            if kinds[f]["kind"] == "free" and nets[-1]["queue"] and rng.random() < 0.08:
                nets[-1]["queue"].insert(rng.randint(0, 3), LAST)
            if len(nets) > 1 and rng.random() < 0.3 and nets[-2]["f"] == f:
                nets[-1]["queue"] = list(nets[-2]["queue"])
    faults = []
    for i in range(rng.randint(0, 14)):
        o = op(rng, grid)
        faults.append(dict(o, t=grid * rng.randint(0, 20), depth=rng.choice([0, 0, 1, 2, 3, 4]), prio=rng.choice([0, 1, 1, 2])))
    return dict(actors=actors, kinds=kinds, nets=nets, faults=faults, until=grid * rng.randint(8, 30),
                debug=rng.random() < 0.3, poke=rng.random() < 0.4, t0=rng.choice([0.0, 0.0, 7.5]))


def names_of(kind):
    return NAMES if kind["kind"] == "free" else kind["order"]


def op(rng, grid, own=False):
    return dict(op=rng.choice(["set", "set", "reset", "clear"] if own else ["set", "reset", "reset", "clear", "int", "int", "int", "succeed"]),
                net=-1 if own else rng.choice([-1, rng.randrange(9), rng.randrange(9)]),
                q=[rng.choice(NAMES) for _ in range(rng.randint(1, 4))], ans=rng.choice("EEEIR"))


class Worker(UP.Actor):
    note = UP.State(default=0)


class Model:
    """Nondeterministic model of one network: the set of situations the observations allow."""

    def __init__(self, ctx, net):
        self.ctx, self.net = ctx, net
        self.states = None  # set of (running name or None, queue tuple, name that just finished)

    def close(self):
        out = set(self.states)
        for run, q, last in self.states:
            if run is None and last is not None:
                if q:
                    out.add((q[0], q[1:], None))
                elif self.default(last) is not None:
                    out.add((self.default(last), q, None))
        self.states = out

    def default(self, name):
        return self.net.links.get(name)

    def keep(self, cond, kind, msg):
        left = {s for s in self.states if cond(s)}
        if not left:
            self.ctx.violate(kind, f"t={self.net.w.env.now}: {self.net.label}: {msg}; allowed {sorted(self.states, key=repr)}")
        self.states = left

    def launch(self, init, queue):
        self.states = {("*start", tuple(queue), init)}
        # first task: the queue's head, otherwise the initial one
        out = set(self.states)
        out.add((queue[0], tuple(queue[1:]), None) if queue else (init, (), None))
        self.states = out

    def relaunch(self):
        out = set()
        for run, q, last in self.states:
            out.add((run, q, last))
            if run == "*start":
                out.add((q[0], q[1:], None) if q else (last, (), None))
        self.states = out

    def reported(self, name, queue):
        """name: task reported running with a live process (None: none)."""
        q = tuple(queue)
        self.keep(lambda s: s[1] == q, "wrong-queue", f"queue is {queue}")
        if name is None:
            self.keep(lambda s: s[0] in (None, "*start", "Skip"), "running-task-not-reported", "no running task reported")
        else:
            self.keep(lambda s: s[0] == name, "wrong-running-task", f"{name} reported running")

    def finished(self, name):
        self.keep(lambda s: s[0] == name, "task-out-of-order", f"{name} finished")
        self.states = {(None, q, name) for _, q, _ in self.states}
        self.close()

    def started(self, name):
        self.keep(lambda s: s[0] == name, "task-out-of-order", f"{name} started")

    def queue_op(self, kind, ok, new):
        if kind == "clear":
            self.states = {(r, (), l) for r, q, l in self.states}
        elif ok:
            self.keep(lambda s: not s[1], "queue-overwritten", "a queue that was not empty was replaced")
            self.states = {(r, tuple(new), l) for r, q, l in self.states}
        else:
            self.keep(lambda s: s[1], "set-queue-refused", "setting an empty queue was refused")
        self.settle()

    def settle(self):
        if any(s[0] == "*start" for s in self.states):
            self.relaunch()
        else:
            self.close()


class Net:
    def __init__(self, w, i, spec):
        self.w, self.i, self.spec = w, i, spec
        kind = w.plan["kinds"][spec["f"]]
        self.kind = kind
        self.actor = w.actors[spec["a"]]
        self.n_dec = self.n_in = self.n_hand = 0
        self.alive = None          # the task object executing now
        self.inflight = {}         # interrupt id -> task object it was sent to
        self.events = []
        fac = w.factories[spec["f"]]
        self.name = self.actor.suggest_network_name(fac)
        self.net = fac.make_network(self.name)
        self.actor.add_task_network(self.net)
        if spec["again"]:
            # a network of the same name came before, was given a queue and removed
            if spec["again"] == "queued":
                self.actor.set_task_queue(self.name, list(spec["queue"]) or [spec["init"]])
            self.actor.delete_task_network(self.name)
            self.net = fac.make_network(self.name)
            self.actor.add_task_network(self.net)
            w.ctx.cover("same-name-again")
        w.by_name[(self.actor.name, self.name)] = self
        self.label = f"{self.actor.name}/{self.name}"
        if kind["kind"] == "free":
            self.links = dict(kind["links"])
        else:
            o = kind["order"]
            self.links = {n: o[i + 1] for i, n in enumerate(o[:-1])}
            base = fac.name
            self.links[o[-1]] = {"single_looping": o[0], "ordered_loop": o[0], "single_terminating": f"{o[0]}_FINAL",
                                 "ordered_terminating": f"{base}_TERMINATING"}[kind["kind"]]
        self.model = Model(w.ctx, self)
        self.model.states = {("*off", (), None)}
        self.on = False
        self.starts = 0

    def start(self):
        s = self.spec
        q = [x for x in s["queue"]]
        if q:
            self.actor.set_task_queue(self.name, self.w.shared_list(q))
        self.actor.start_network_loop(self.name, s["init"])
        self.on = True
        self.model.launch(s["init"], q)


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.by_name, self.nets, self.ids, self.lists = {}, [], 0, {}
        self.actors = [Worker(name=f"a{i}", debug_log=plan["debug"]) for i in range(plan["actors"])]
        self.factories = [self.factory(i, k) for i, k in enumerate(plan["kinds"])]

    def factory(self, i, k):
        w = self

        def body(name):
            class T(UP.Task):
                def task(self, *, actor):
                    n = w.by_name[(actor.name, self._network_name)]
                    n.begin(self, name)
                    if name == "Ev":
                        e = actor.create_knowledge_event(name=f"{n.name}.go", rehearsal_time_to_complete=1.0)
                        yield UP.Any(e, UP.Wait(k["dur"][name] * 3))
                        if actor.get_knowledge(f"{n.name}.go") is not None:
                            actor.clear_knowledge(f"{n.name}.go")
                        w.do(n, n.next("inside"))
                    elif name == "Zero":
                        yield UP.Wait(0.0)
                        w.do(n, n.next("inside"))
                    elif name == "Empty":
                        w.do(n, n.next("inside"))
                    else:
                        d = k["dur"][name]
                        yield UP.Wait(d / 2)
                        w.do(n, n.next("inside"))
                        yield UP.Wait(d / 2)
                    n.end(self, name)

                def on_interrupt(self, *, actor, cause):
                    return w.answer(self, actor, cause, name)

            T.__name__ = name
            return T

        def decision(name, skip):
            class D(UP.DecisionTask):
                DO_NOT_HOLD = skip

                def make_decision(self, *, actor):
                    n = w.by_name[(actor.name, self._network_name)]
                    n.begin(self, name)
                    if not skip:
                        n.deciding = self
                    w.do(n, n.next("decide"))
                    if skip:
                        n.end(self, name)

                def on_interrupt(self, *, actor, cause):
                    return w.answer(self, actor, cause, name)

            D.__name__ = name
            return D

        if k["kind"] == "free":
            classes = {n: body(n) for n in ["A", "B", "C", "Ev", "Zero", "Empty"]}
            classes["Hold"], classes["Skip"] = decision("Hold", False), decision("Skip", True)

            class End(UP.TerminalTask):
                def log_message(self, *, actor):
                    w.ctx.cover("own-terminal")
                    return f"{super().log_message(actor=actor)} was the last of {self._network_name}"

            classes[LAST] = End
            links = {n: UP.TaskLinks(default=d, allowed=NAMES + [LAST]) for n, d in k["links"].items()}
            return UP.TaskNetworkFactory(f"f{i}", classes, links)
        cl = [decision(n, n == "Skip") if n in ("Hold", "Skip") else body(n) for n in k["order"]]
        make = getattr(UP.TaskNetworkFactory, "from_" + k["kind"])
        return make(f"f{i}", cl[0] if k["kind"].startswith("single") else cl)

    # ------------------------------------------------------------ actions
    def shared_list(self, q):
        """The users of equal plans give the same list object."""
        return self.lists.setdefault(tuple(q), list(q))

    def do(self, me, o):
        """Perform a queue change or an interrupt; me: the acting network or None."""
        if o is None:
            return
        if o["net"] == -1:
            n = me
        else:
            n = self.nets[o["net"] % len(self.nets)]
        if n is None or not n.on:
            return
        names = names_of(n.kind)
        q = [x for x in o["q"] if x in names]
        w, a = self, n.actor
        kind = o["op"]
        own = me is n and me.alive is not None
        if kind in ("set", "reset"):
            if not q:
                return
            if kind == "reset":
                a.clear_task_queue(n.name) if not own else n.alive.clear_actor_task_queue(a)
                n.model.queue_op("clear", True, ())
            try:
                if own:
                    n.alive.set_actor_task_queue(a, w.shared_list(q))
                else:
                    a.set_task_queue(n.name, w.shared_list(q))
                ok = True
            except SimulationError:
                ok = False
            n.model.queue_op("set", ok, q)
            w.ctx.fault("queue-set" if ok else "queue-set-refused")
            w.ctx.nontrivial = True
        elif kind == "clear":
            a.clear_task_queue(n.name)
            n.model.queue_op("clear", True, ())
            w.ctx.fault("queue-clear")
        elif kind == "succeed":
            if a.get_knowledge(f"{n.name}.go") is not None:
                w.ctx.fault("succeed")
                ev = a.get_knowledge(f"{n.name}.go")
                if not ev.is_complete():
                    a.succeed_knowledge_event(name=f"{n.name}.go")
        else:
            if n.alive is not None and n is me:
                return  # a task cannot interrupt itself
            rep = a.get_running_task(n.name)
            if rep is not None and ("FINAL" in rep.name or "TERMINATING" in rep.name):
                return  # terminal tasks refuse interrupts
            w.ids += 1
            cause = (w.ids, n.label, o["ans"])
            live = rep is not None and rep.process.is_alive
            try:
                a.interrupt_network(n.name, cause=cause)
            except UpstageError:
                w.ctx.check(not live, "interrupt-refused", f"t={w.env.now}: {n.label} runs {rep and rep.name}")
                w.ctx.check(n.alive is None or n.alive_name == "Skip" or not n.begun, "interrupt-refused",
                            f"t={w.env.now}: {n.label} is executing {n.alive}")
                w.ctx.fault("interrupt-between-tasks")
                return
            n.inflight[w.ids] = n.epoch
            w.ctx.fault("interrupt-" + o["ans"])
            w.ctx.nontrivial = True

    def answer(self, task, actor, cause, name):
        ctx = self.ctx
        i, label, ans = cause
        n = self.by_name[(actor.name, task._network_name)]
        ctx.log(self.env.now, n.label, "interrupt", i, name)
        ctx.check(n.label == label, "interrupt-to-wrong-network", f"{cause} reached {n.label}")
        ctx.check(i in n.inflight, "interrupt-twice", f"{cause}")
        n.inflight.pop(i)
        ctx.check(n.alive is task, "interrupt-to-wrong-task", f"t={self.env.now}: {cause} reached {name} of {n.label}, executing {n.alive_name}")
        if ans == "I":
            return task.INTERRUPT.IGNORE
        self.do(n, n.next("handler"))
        if name == "Ev" and actor.get_knowledge(f"{n.name}.go") is not None:
            actor.clear_knowledge(f"{n.name}.go")
        if ans == "R":
            n.restarting = True
            return task.INTERRUPT.RESTART
        n.end(task, name)
        return task.INTERRUPT.END


def begin(self, task, name):
    w = self.w
    w.ctx.log(w.env.now, self.label, "begin", name)
    if self.restarting:
        w.ctx.check(task is self.alive, "restart-of-wrong-task", f"t={w.env.now} {self.label} {name}")
        self.restarting = False
        return
    w.ctx.check(self.alive is None or self.deciding is self.alive, "two-tasks-at-once",
                f"t={w.env.now}: {self.label} starts {name} while executing {self.alive_name}")
    if self.deciding is not None:
        self.end(self.deciding, self.alive_name)
    self.alive, self.alive_name = task, name
    self.begun = True
    self.epoch += 1
    self.starts += 1
    self.model.started(name)
    r = self.actor.get_running_task(self.name)
    if name != "Skip":
        w.ctx.check(r is not None and r.name == name and r.process.is_alive, "wrong-running-task",
                    lambda: f"t={w.env.now}: inside {name} of {self.label} the report is {r}")
    w.ctx.check(task._network_name == self.name, "wrong-network-name", "")


def end(self, task, name):
    w = self.w
    w.ctx.log(w.env.now, self.label, "end", name)
    w.ctx.check(self.alive is task, "step-of-ended-task", f"t={w.env.now}: {self.label} {name} ends, executing {self.alive_name}")
    self.alive, self.alive_name, self.deciding = None, None, None
    self.ended_at = w.env.now
    self.model.finished(name)
    for i in list(self.inflight):   # those that came too late for it
        del self.inflight[i]


def nxt(self, what):
    lst = self.spec[what]
    c = "n_" + what
    k = getattr(self, c, 0)
    setattr(self, c, k + 1)
    if what == "decide":
        return lst[k] if k < len(lst) else None
    return lst[k % len(lst)] if lst else None


Net.begin, Net.end, Net.next = begin, end, nxt
Net.alive_name, Net.restarting, Net.deciding, Net.epoch, Net.begun, Net.ended_at = None, False, None, 0, False, None


def run(plan, ctx):
    if not plan["nets"]:
        return
    with ctx.context(initial_time=plan["t0"]) as env:
        w = World(plan, ctx, env)
        for i, s in enumerate(plan["nets"]):
            w.nets.append(Net(w, i, s))
        for n in w.nets:
            t = plan["t0"] + n.spec["t0"]
            if n.spec["t0"] == 0:
                n.start()
            else:
                at(env, t, n.start)
        for f in plan["faults"]:
            at(env, plan["t0"] + f["t"], lambda f=f: w.do(None, f), f["depth"], f["prio"])

        def observe():
            for n in w.nets:
                if not n.on:
                    continue
                n.model.settle()
                r = n.actor.get_running_task(n.name)
                both = n.actor.get_running_tasks().get(n.name)
                ctx.check((r is None) == (both is None) and (r is None or (r.name, r.process) == (both.name, both.process)),
                          "reports-differ", f"{n.label}: {r} {both}")
                if r is not None and n.alive is not None and not n.deciding:
                    # a task that executes is the one reported
                    ctx.check(r.process.is_alive, "dead-task-reported", f"t={env.now}: {n.label} executes {n.alive_name}, reported {r}")
                live = r is not None and r.process.is_alive
                if not live and n.deciding is not None and n.alive is n.deciding:
                    n.end(n.deciding, n.alive_name)  # a held decision is over when its process is
                n.model.reported(r.name if live else None, n.actor.get_task_queue(n.name))
                n.model.settle()
                q = n.actor.get_task_queue(n.name)
                ctx.check(n.actor.get_all_task_queues()[n.name] == q, "queues-differ", n.label)
                ctx.check(n.actor.get_next_task(n.name) == (q[0] if q else None), "next-task-differs", n.label)
                if n.alive is not None:
                    ctx.check(n.alive.get_actor_next_task(n.actor) == (q[0] if q else None) and n.alive.get_actor_task_queue(n.actor) == q,
                              "next-task-differs", n.label)

        def instant():
            for n in w.nets:
                if not n.on:
                    continue
                ctx.check(not n.inflight, "interrupt-lost", f"t={env.now}: {n.label} executing {n.alive_name}: {n.inflight}")
                runs = {s[0] for s in n.model.states}
                term = any(r and ("FINAL" in r or "TERMINATING" in r) for r in runs)
                ctx.check(n.alive is not None or term, "successor-not-started",
                          f"t={env.now}: {n.label} has no task executing, model {n.model.states}")
                if n.alive is not None and not term:
                    ctx.check(runs == {n.alive_name}, "wrong-running-task", f"t={env.now}: {n.label} executes {n.alive_name}, expected {runs}")

        env._step_hooks.append(observe)
        env._hooks.append(instant)
        env.run(until=plan["t0"] + plan["until"])
        over = [n for n in w.nets if n.on and (r := n.actor.get_running_task(n.name)) and ("FINAL" in r.name or "TERMINATING" in r.name)]
        for n in over:
            r = n.actor.get_running_task(n.name)
            said = [m for _, m in n.actor.get_log() if ("was the last of " + n.name if r.name == LAST else "on network " + n.name) in m + "\n" and m.endswith(n.name)]
            ctx.check(len(said) == (1 if plan["debug"] else 0) or [x.name for x in w.nets if x.actor is n.actor].count(n.name) > 1, "terminal-log", lambda: f"{n.label}: {said} in {n.actor.get_log()}")
        if over and plan["poke"]:
            env._step_hooks.clear(), env._hooks.clear()
            over[0].actor.interrupt_network(over[0].name, cause="poke")
            ctx.fault("interrupt-terminal")
            try:
                env.run(until=env.now + 0.25)
            except SimulationError:
                pass
            else:
                ctx.violate("terminal-left", f"interrupting the terminal task of {over[0].label} was no error")
        for want, q in w.lists.items():
            ctx.check(list(want) == q, "queued-list-changed", f"the list {want} given as a queue became {q}")
        ctx.cover("task-starts", sum(n.starts for n in w.nets))
        for n in w.nets:
            ctx.cover("networks-" + n.kind["kind"])
