"""C09: a watched state change interrupts exactly the networks watching it."""
import upstage_des.api as UP

from dst.core import at

ID = "C09"
RUNS = {"quick": 30000, "thorough": 500000}
SHRINK = ["nets", "faults", "inside", "handler"]
RULE = ("1-3 actors, with or without a nucleus, each running 1-4 task networks (waiting, event-waiting, zero-time, "
        "held and unheld decision tasks); each network watches 0-3 of the actor's 4 states (plain, recording, typed, "
        "detectability). States are assigned (also with an unchanged value, also several at one instant) from outside, "
        "from tasks and from interrupt handlers of networks that do not watch them, while networks are added to, "
        "extended in and removed from the nucleus; handlers answer end/ignore/restart. Every delivery is matched with "
        "the assignment that caused it. Non-trivial: an assignment reached a watching, running network.")
REAL = ["upstage_des nucleus, states, actor, task_network, task; simpy interrupts"]
STUB = []
ASSUME = ["a network's own task does not assign what the network watches (documented limit)",
          "a network between two tasks at that instant has no running task to interrupt",
          "an interrupt is lost if an earlier one of that instant ends the task"]

ODD = [None, 0, 0.0, "", False, [], "text"]
STATES = ["s0", "s1", "s2", "det"]


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0, 1.0])
    actors = [dict(nucleus=rng.random() < 0.85) for _ in range(rng.randint(1, 3))]
    nets = []
    for a in range(len(actors)):
        for _ in range(rng.randint(1, 4)):
            nets.append(dict(a=a, start=grid * rng.choice([0, 0, 0, 1, 3]), dur=[grid * rng.randint(1, 4) for _ in range(3)],
                             kind=rng.choice(["wait", "wait", "event", "decide", "skip", "zero"]),
                             watch=rng.sample(STATES, rng.randint(0, 3)),
                             inside=[op(rng) if rng.random() < 0.5 else None for _ in range(5)],
                             handler=[op(rng) if rng.random() < 0.2 else None for _ in range(5)],
                             ans=[rng.choice("EIR") for _ in range(5)]))
    faults = [dict(op(rng, True), t=grid * rng.randint(0, 16), depth=rng.choice([0, 0, 1, 2, 3, 4]), prio=rng.choice([0, 1, 1, 2]))
              for _ in range(rng.randint(1, 16))]
    return dict(twins=rng.random() < 0.2, actors=actors, nets=nets, faults=faults, until=grid * rng.randint(6, 18))


def op(rng, outside=False):
    o = dict(v=rng.choice(ODD) if rng.random() < 0.25 else "n", op=rng.choice(["set"] * 6 + ["add", "remove", "same"]) if outside else rng.choice(["set", "set", "set", "same", "add", "remove"]),
             a=rng.randrange(3), s=rng.choice(STATES), net=rng.randrange(9), watch=rng.sample(STATES, rng.randint(1, 2)))
    if rng.random() < 0.2:
        o["more"] = [dict(op="set", a=rng.randrange(3), s=rng.choice(STATES), net=0, watch=[]) for _ in range(rng.randint(1, 2))]
    return o


class Holder(UP.Actor):
    s0 = UP.State(default=0)
    s1 = UP.State(default=0, recording=True)
    s2 = UP.State(default=0, valid_types=(int,), recording=True, record_duplicates=True)
    det = UP.DetectabilityState(default=True)


class Other(UP.Actor):
    s0 = UP.State(default=0)


class Net:
    alive = deciding = None
    n_in = n_hand = n_ans = 0

    def __init__(self, w, i, spec):
        self.w, self.i, self.spec = w, i, spec
        self.actor = w.actors[spec["a"] % len(w.actors)]
        self.nuc = w.nuclei[spec["a"] % len(w.actors)]
        self.name = f"net{i}"
        self.watch = set()
        self.pending = []
        net = w.factory(spec["kind"]).make_network(self.name)
        self.actor.add_task_network(net)
        self.net = net
        w.by[(self.actor, self.name)] = self
        if self.nuc is not None and spec["watch"]:
            self.add(spec["watch"])

    def add(self, states, by_object=False):
        self.nuc.add_network(self.net if by_object else self.name, list(states))
        self.watch |= set(states)

    def nxt(self, what):
        lst = self.spec[what]
        k = getattr(self, "n_" + what, 0)
        setattr(self, "n_" + what, k + 1)
        return lst[k % len(lst)] if lst else None


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.by, self.nets, self.count = {}, [], 100
        self.actors = [Holder(name="a" if plan["twins"] else f"a{i}") for i in range(len(plan["actors"]))]
        self.nuclei = [UP.TaskNetworkNucleus(actor=a) if p["nucleus"] else None for a, p in zip(self.actors, plan["actors"])]
        for a, n in zip(self.actors, self.nuclei):
            if n is not None:
                ctx.check(a.get_nucleus() is n, "wrong-nucleus", a.name)

    def factory(self, kind):
        w = self

        class Body(UP.Task):
            nm = "Body"

            def task(self, *, actor):
                n = w.by[(actor, self._network_name)]
                w.begin(n, self)
                d = n.spec["dur"]
                w.act(n, n.nxt("inside"))
                yield UP.Wait(d[0])
                w.act(n, n.nxt("inside"))
                if kind == "event":
                    yield UP.Any(UP.Event(), UP.Wait(d[1]))
                    yield UP.All(UP.Wait(d[1]), UP.Wait(d[2]))
                elif kind == "zero":
                    yield UP.Wait(0.0)
                else:
                    yield UP.Wait(d[1])
                w.act(n, n.nxt("inside"))
                w.end(n, self)

            def on_interrupt(self, *, actor, cause):
                return w.answer(self, actor, cause)

        class Dec(UP.DecisionTask):
            DO_NOT_HOLD = kind == "skip"

            def make_decision(self, *, actor):
                n = w.by[(actor, self._network_name)]
                w.begin(n, self)
                w.act(n, n.nxt("inside"))
                if kind == "skip":
                    w.end(n, self)
                else:
                    n.deciding = self

            def on_interrupt(self, *, actor, cause):
                return w.answer(self, actor, cause)

        if kind in ("decide", "skip"):
            return UP.TaskNetworkFactory.from_ordered_loop("f", [Body, Dec])
        return UP.TaskNetworkFactory.from_single_looping("f", Body)

    def begin(self, n, task):
        if n.deciding is not None:
            if n.deciding is task:
                n.deciding = None  # decides anew
            else:
                self.end(n, n.deciding)
        n.alive = task

    def end(self, n, task):
        n.alive = n.deciding = None
        n.pending = []

    def act(self, me, o):
        if o is None:
            return
        for x in [o] + o.get("more", []):
            self.one(me, x)

    def one(self, me, o):
        ctx, env = self.ctx, self.env
        k = o["a"] % len(self.actors)
        a = self.actors[k]
        if o["op"] in ("add", "remove"):
            if not self.nets:
                return
            n = self.nets[o["net"] % len(self.nets)]
            if n.nuc is None:
                return
            if o["op"] == "add":
                n.add(o["watch"], by_object=len(o["watch"]) > 1)
            elif n.watch:
                n.nuc.remove_network(n.name if o["a"] else n.net)
                n.watch = set()
                ctx.cover("network-removed")
            return
        s = o["s"]
        if me is not None and me.actor is a and s in me.watch:
            return  # SimPy: a process cannot interrupt itself
        self.count += 1
        value = getattr(a, s) if o["op"] == "same" else (self.count if s != "det" else bool(self.count % 2))
        if o["op"] == "set" and o.get("v", "n") != "n" and s in ("s0", "s1"):
            value = o["v"]
        for n in self.nets:
            if n.actor is not a or s not in n.watch:
                continue
            rep = a.get_running_task(n.name)
            live = rep is not None and rep.process.is_alive
            if n.alive is not None and n.deciding is None and not (n.alive.__class__.__name__ == "Dec" and n.spec["kind"] == "skip"):
                ctx.check(live, "running-task-not-reported", f"{n.name}")
            if live:
                n.pending.append((s, value))
                ctx.nontrivial = True
                ctx.fault("interrupting-assignment")
            else:
                ctx.fault("assignment-between-tasks")
        ctx.fault("assignment")
        ctx.log(env.now, "set", a.name, s, value)
        setattr(a, s, value)
        ctx.check(getattr(a, s) == value, "assignment-lost", s)

    def answer(self, task, actor, cause):
        ctx = self.ctx
        n = self.by[(actor, task._network_name)]
        ctx.log(self.env.now, n.name, "got", repr(cause))
        ctx.check(isinstance(cause, UP.NucleusInterrupt), "foreign-interrupt", repr(cause))
        got = (cause.state_name, cause.value)
        ctx.check(n.pending, "unwanted-interrupt",
                  f"t={self.env.now}: {actor.name}/{n.name} watching {sorted(n.watch)} got {got}")
        want = n.pending.pop(0)
        ctx.check(got == want, "wrong-interrupt", f"t={self.env.now}: {actor.name}/{n.name} got {got}, next assignment was {want}")
        ctx.check(n.alive in (task, None), "interrupt-to-wrong-task", n.name)
        ans = n.nxt("ans")
        self.act(n, n.nxt("handler"))
        if ans == "I":
            return task.INTERRUPT.IGNORE
        if ans == "R":
            return task.INTERRUPT.RESTART
        self.end(n, task)
        return task.INTERRUPT.END


def run(plan, ctx):
    if not plan["actors"]:
        return
    with ctx.context() as env:
        w = World(plan, ctx, env)
        for i, s in enumerate(plan["nets"]):
            w.nets.append(Net(w, i, s))
        for n in w.nets:
            def go(n=n):
                n.actor.start_network_loop(n.name, "Body")
            go() if n.spec["start"] == 0 else at(env, n.spec["start"], go)
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: w.act(None, f), f["depth"], f["prio"])

        def observe():
            for n in w.nets:
                if n.deciding is not None:
                    r = n.actor.get_running_task(n.name)
                    if r is None or not r.process.is_alive:
                        w.end(n, n.deciding)

        def instant():
            for n in w.nets:
                ctx.check(not n.pending, "interrupt-missing",
                          f"t={env.now}: {n.actor.name}/{n.name} was not told of {n.pending}")

        env._step_hooks.append(observe)
        env._hooks.append(instant)
        env.run(until=plan["until"])
