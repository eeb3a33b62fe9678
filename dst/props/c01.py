"""C01: conservation of items, quantities and slots under interrupts and races."""
import simpy
import upstage_des.api as UP
from upstage_des.resources.monitoring import (
    SelfMonitoringContainer, SelfMonitoringFilterStore, SelfMonitoringSortedFilterStore, SelfMonitoringStore)
from upstage_des.resources.sorted import SortedFilterStore, SortedFilterGet

from dst.core import at

ID = "C01"
RUNS = {"quick": 36000, "thorough": 300000}
SHRINK = ["tasks", "steps", "faults", "answers"]
RULE = ("Programs of 2-5 tasks over 1-4 stores/containers/resources, times on a coarse grid so that grants, "
        "timeouts and interrupts collide; up to 14 interrupts with end/ignore/restart answers, early, late and "
        "in the middle of an instant. Non-trivial: at least one interrupt reached a task whose request was outstanding.")
REAL = ["upstage_des task, events, sorted store, self-monitoring resources; simpy stores, containers, resources"]
STUB = []
ASSUME = ["SimPy 4.1.1 is the event kernel actually used", "tasks follow the documented pattern: a request that lost an any() is cancelled"]

STORE_KINDS = {
    "store": simpy.Store, "filter": simpy.FilterStore, "sorted": SortedFilterStore,
    "monstore": SelfMonitoringStore, "monfilter": SelfMonitoringFilterStore,
    "monsorted": SelfMonitoringSortedFilterStore,
}
CONT_KINDS = {"container": simpy.Container, "moncontainer": SelfMonitoringContainer}


class Item:
    __slots__ = ("n", "cls")

    def __init__(self, n, cls):
        self.n, self.cls = n, cls

    def __bool__(self):
        return self.n % 4 != 0

    def __repr__(self):
        return f"<item {self.n}/{self.cls}>"


class Worker(UP.Actor):
    note = UP.State(default=0)


def gen(rng, tier):
    stores = []
    for i in range(rng.randint(1, 4)):
        k = rng.choice(list(STORE_KINDS) * 2 + list(CONT_KINDS) * 3 + ["resource"] * 2 + ["priority"])
        if k in STORE_KINDS:
            cap = rng.choice([None, None, 1, 2, 3])
            stores.append(dict(kind=k, cap=cap, init=rng.randint(0, cap or 3)))
        elif k in CONT_KINDS:
            cap = rng.choice([None, 6, 10])
            stores.append(dict(kind=k, cap=cap, init=rng.randint(0, 6)))
        else:
            stores.append(dict(kind=k, cap=rng.randint(1, 2)))
    grid = rng.choice([0.5, 1.0, 1.0])
    tasks = []
    for i in range(rng.randint(2, 5)):
        steps = []
        for _ in range(rng.randint(2, 6)):
            s = rng.randrange(len(stores))
            k = stores[s]["kind"]
            d = grid * rng.randint(0, 4)
            if rng.random() < 0.25:
                steps.append(["wait", d])
            elif rng.random() < 0.15:
                kids = []
                for _ in range(rng.randint(2, 5)):
                    z = rng.randrange(len(stores))
                    kz = stores[z]["kind"]
                    if kz in STORE_KINDS:
                        kids.append([rng.choice(["get", "get", "put"]), z, rng.choice([None, 0, 1])])
                    elif kz in CONT_KINDS:
                        kids.append([rng.choice(["cget", "cput"]), z, rng.randint(1, 4)])
                    else:
                        kids.append([rng.choice(["hold", "wait"]), z, grid * rng.randint(0, 4)])
                steps.append(["race", rng.choice(["any", "any", "all"]), kids, rng.choice([None, None, d])])
            elif k in STORE_KINDS:
                c = rng.choice([None, 0, 1])
                op = rng.choice(["get", "get", "put", "put", "getwait", "all", "nested", "later"])
                if op in ("get", "put"):
                    steps.append([op, s, c, rng.random() < 0.5])
                elif op in ("getwait", "later"):
                    steps.append([op, s, c, d])
                elif op == "nested":
                    steps.append([op, s, rng.randrange(len(stores)), d, c])
                else:
                    steps.append([op, s, rng.randrange(len(stores)), c])
            elif k in CONT_KINDS:
                op = rng.choice(["cget", "cput", "cgetwait", "cputwait"])
                steps.append([op, s, rng.randint(1, 4), d])
            else:
                steps.append([rng.choice(["hold", "hold", "holdwait"]), s, d, grid * rng.randint(0, 3)])
        tasks.append(dict(t0=grid * rng.randint(0, 3), steps=steps, loops=rng.randint(1, 3),
                          answers=[rng.choice("EEIRR") for _ in range(rng.randint(0, 5))]))
    faults = []
    for _ in range(rng.randint(0, 14)):
        faults.append(dict(t=grid * rng.randint(0, 12), task=rng.randrange(len(tasks)),
                           depth=rng.choice([0, 0, 0, 1, 1, 2, 3, 5]), prio=rng.choice([0, 1, 1, 2])))
    return dict(stores=stores, tasks=tasks, faults=faults)


class World:
    def __init__(self, plan, run, env):
        self.run, self.env = run, env
        self.n = 0
        self.where = {}      # item -> ("store", s) | ("task", k) | ("putting", k, s)
        self.stores, self.kinds = [], []
        self.ledger = {}     # container -> amount
        self.live = {}       # simpy request event -> (task, kind, store, payload, seq)
        self.abandoned = []  # [(event, kind, store, payload)] this instant
        self.gone = []       # request events of abandoned tasks, must never be queued again
        self.holding = {}    # resource request event -> task
        self.granted = set() # live request events already completed (members of an all())
        self.delivered = []  # [(store, seq, item)] this instant
        self.seq = 0
        for s, d in enumerate(plan["stores"]):
            k = d["kind"]
            self.kinds.append(k)
            cap = d["cap"] if d["cap"] is not None else float("inf")
            if k in STORE_KINDS:
                st = STORE_KINDS[k](env, capacity=cap)
                self.stores.append(st)
                for _ in range(d["init"]):
                    it = self.new_item()
                    st.put(it)
                    self.where[it] = ("store", s)
            elif k in CONT_KINDS:
                self.stores.append(CONT_KINDS[k](env, capacity=cap, init=min(d["init"], cap)))
                self.ledger[s] = min(d["init"], cap)
            else:
                self.stores.append((simpy.PriorityResource if k == "priority" else simpy.Resource)(env, capacity=cap))

    def res_index(self, r):
        return next(i for i, x in enumerate(self.stores) if x is r)

    def new_item(self):
        self.n += 1
        return Item(self.n, self.n % 2)

    # -- request bookkeeping, called by the task programs
    def ask(self, k, event, kind, s, payload=None):
        self.seq += 1
        ev = event.as_event()
        self.live[ev] = (k, kind, s, payload, self.seq)
        return ev

    def got(self, ev, value=None):
        k, kind, s, payload, seq = self.live.pop(ev)
        self.granted.discard(ev) if ev in self.granted else self._grant(ev, k, kind, s, payload, seq)
        if kind == "get":
            self.run.check(ev.value is value, "value-mismatch", f"{value} vs {ev.value}")
        if kind == "hold":
            self.holding[ev] = k
        self.run.log(self.env.now, "got", k, kind, s, str(value if value is not None else payload))

    def _grant(self, ev, k, kind, s, payload, seq):
        run = self.run
        if kind == "get":
            value = ev.value
            for ab in self.abandoned:  # put in just before its task was interrupted
                if ab[1] == "put" and ab[3] is value and ab[2] == s:
                    self.abandoned.remove(ab)
                    self.where[value] = ("store", s)
                    break
            for put, v in self.live.items():  # put in by a task that still waits for something else
                if v[1] == "put" and v[3] is value and v[2] == s and put.triggered and put not in self.granted:
                    self.granted.add(put)
                    self.where[value] = ("store", s)
            run.check(self.where.get(value) == ("store", s), "given-item-not-in-store",
                      f"task {k} was given {value} from store {s}, which was {self.where.get(value)}")
            self.where[value] = ("task", k)
            if payload is not None:
                run.check(value.cls == payload, "filter-violated", f"{value} for filter {payload}")
            self.delivered.append((s, seq, value))
        elif kind == "put":
            self.where[payload] = ("store", s)
        elif kind == "cget":
            self.ledger[s] -= payload
            self.delivered.append((s, seq, None))
        elif kind == "cput":
            self.ledger[s] += payload
        elif kind == "hold":
            self.delivered.append((s, seq, None))

    def drop(self, ev):
        """The task no longer wants this request (it lost an any, or the task was interrupted)."""
        k, kind, s, payload, seq = self.live.pop(ev)
        if ev.processed and kind == "hold":  # complete when the handler ran: the handler gives it back
            self.stores[s].release(ev)
        if ev in self.granted:
            self.granted.discard(ev)
            return
        if ev.processed:
            self._grant(ev, k, kind, s, payload, seq)
            return
        self.abandoned.append((ev, kind, s, payload, k))
        self.gone.append(ev)

    def drop_all(self, k):
        evs = [e for e, v in self.live.items() if v[0] == k]
        for e in evs:
            self.drop(e)
        return len(evs)

    # -- invariants at the end of each instant
    def instant(self):
        run = self.run
        now = self.env.now
        for ev, v in list(self.live.items()):
            if ev.processed and ev not in self.granted:
                self._grant(ev, *v)
                self.granted.add(ev)
        waiting = {e: v for e, v in self.live.items() if e not in self.granted}
        # abandoned puts may have gone in at this very instant, or not at all
        amb = {}
        for ev, kind, s, payload, k in self.abandoned:
            if kind == "put":
                st = self.stores[s]
                inside = payload in st.items or any(q.item is payload and q is not ev for q in st.put_queue)
                self.where[payload] = ("store", s) if inside else ("task", k)
            elif kind == "cput":
                amb.setdefault(s, []).append(payload)
        self.abandoned.clear()
        for ev in self.gone:
            for st in self.stores:
                run.check(all(ev is not q for q in list(st.put_queue) + list(st.get_queue)), "request-left-behind",
                          f"t={now}: request {type(ev).__name__} of an ended/restarted task is still queued")
        in_store = {}
        for s, st in enumerate(self.stores):
            k = self.kinds[s]
            if k in STORE_KINDS:
                pend = [q.item for q in st.put_queue if q not in self.live]
                for it in list(st.items) + pend:
                    run.check(it not in in_store, "item-duplicated", f"t={now}: {it} twice")
                    in_store[it] = s
                run.check(len(st.items) <= st.capacity, "over-capacity", f"t={now} store {s}")
                outst = [(v[4], v[3]) for e, v in waiting.items() if v[2] == s and v[1] == "get"]
                for seq, flt in outst:
                    match = [i for i in st.items if flt is None or i.cls == flt]
                    run.check(not match, "item-withheld",
                              f"t={now}: store {s} holds {match} while a request for class {flt} waits")
                if any(v[1] == "put" and v[2] == s for v in waiting.values()):
                    run.check(len(st.items) >= st.capacity, "space-withheld", f"t={now}: store {s}")
                for ds, dseq, it in self.delivered:
                    if ds == s:
                        for seq, flt in outst:
                            run.check(not (seq < dseq and (flt is None or it.cls == flt)), "out-of-order",
                                      f"t={now}: {it} went to a later request on store {s}")
                n_q = len([q for q in st.get_queue])
                run.check(n_q == len(outst), "request-queue-mismatch",
                          f"t={now}: store {s} has {n_q} queued gets, {len(outst)} tasks waiting")
            elif k in CONT_KINDS:
                orphan = sum(q.amount for q in st.put_queue if q not in self.live)
                have = st.level + orphan
                sums = {self.ledger[s]}
                for a in amb.get(s, []):
                    sums |= {x + a for x in sums}
                run.check(have in sums, "quantity-not-conserved",
                          f"t={now}: container {s} level {st.level} (+{orphan} pending) expected {sorted(sums)}")
                self.ledger[s] = have
                outst = [v[4] for v in waiting.values() if v[2] == s and v[1] == "cget"]
                run.check(len(st.get_queue) == len(outst), "request-queue-mismatch", f"t={now}: container {s}")
                for ds, dseq, _ in self.delivered:
                    run.check(ds != s or not any(q < dseq for q in outst), "out-of-order", f"t={now} container {s}")
                run.check(0 <= st.level <= st.capacity, "over-capacity", f"t={now} container {s}")
            else:
                mine = list(self.holding) + [e for e in self.granted if self.live[e][1] == "hold"]
                for u in st.users:
                    run.check(u in mine, "slot-leaked",
                              f"t={now}: resource {s} slot is held by a request nobody was given")
                run.check(len(st.users) == len([h for h in mine if h.resource is st]), "slot-lost",
                          f"t={now}: resource {s}")
                outst = [v[4] for v in waiting.values() if v[2] == s and v[1] == "hold"]
                run.check(len(st.queue) == len(outst), "request-queue-mismatch", f"t={now}: resource {s}")
                run.check(not (outst and len(st.users) < st.capacity), "slot-withheld", f"t={now}: resource {s}")
                for ds, dseq, _ in self.delivered:
                    run.check(ds != s or not any(q < dseq and (q[0] == dseq[0] or q[1] < now) for q in outst), "out-of-order", f"t={now} resource {s}")
        for it, w in self.where.items():
            if w[0] == "store":
                run.check(in_store.get(it) == w[1], "item-lost",
                          f"t={now}: {it} should be in store {w[1]}, is in {in_store.get(it)}")
            else:
                run.check(it not in in_store, "item-duplicated",
                          f"t={now}: {it} is with {w} and in store {in_store.get(it)}")
        self.delivered.clear()


class Hold(UP.ResourceHold):
    """A resource hold that tells the harness which request it made."""

    def __init__(self, w, k, s):
        w.n += 1
        self.prio = w.n % 3 if w.kinds[s] == "priority" else 0
        if self.prio == 2:
            super().__init__(w.stores[s], 2)
        elif self.prio:
            super().__init__(w.stores[s], priority=1)
        elif w.kinds[s] == "priority":
            super().__init__(w.stores[s], priority=0)
        else:
            super().__init__(w.stores[s])
        self.w, self.k, self.s, self.ev = w, k, s, None

    def as_event(self):
        ev = super().as_event()
        if self.ev is None:
            self.ev = ev
            self.w.seq += 1
            self.w.live[ev] = (self.k, "hold", self.s, None, (self.prio, self.w.env.now, self.w.seq))
        return ev


class Prog(UP.Task):
    def task(self, *, actor):
        w, k, spec = actor.w, actor.k, actor.spec
        for _ in range(spec["loops"]):
            for st in spec["steps"]:
                if st[0] == "wait":
                    yield UP.Wait(st[1])
                else:
                    yield from getattr(self, "do_" + st[0])(w, k, *st[1:])
        actor.done = True

    def mkget(self, w, s, c):
        kind, store = w.kinds[s], w.stores[s]
        if "sorted" in kind:
            if c is None:
                return SortedFilterGet(store, sorter=lambda i: i.n)
            return SortedFilterGet(store, filter=lambda i: i.cls == c, sorter=lambda i: -i.n)
        if "filter" in kind:
            return UP.FilterGet(store, (lambda i: True) if c is None else (lambda i: i.cls == c))
        return UP.Get(store)

    def cls_of(self, w, s, c):
        return c if ("sorted" in w.kinds[s] or "filter" in w.kinds[s]) else None

    def do_get(self, w, k, s, c, _):
        g = self.mkget(w, s, c)
        ev = w.ask(k, g, "get", s, self.cls_of(w, s, c))
        item = yield g
        w.run.check(g.get_value() is item, "value-mismatch", "yielded value differs from get_value()")
        w.got(ev, item)

    def do_later(self, w, k, s, c, d):
        """any(get, timeout), keeping on waiting for the get; once it has its item it makes no other request."""
        g = self.mkget(w, s, c)
        ev = w.ask(k, g, "get", s, self.cls_of(w, s, c))
        yield UP.Any(g, UP.Wait(d))
        item = yield g
        w.got(ev, item)
        again = yield UP.Any(g, UP.Wait(d)) if c else g
        w.run.check(g.get_value() is item and (c or again is item), "value-mismatch", f"waiting again on a complete get for {item} gave {again}, {g.get_value()}")

    def do_getwait(self, w, k, s, c, d):
        g = self.mkget(w, s, c)
        t = UP.Wait(d)
        ev = w.ask(k, g, "get", s, self.cls_of(w, s, c))
        yield UP.Any(g, t)
        if g.is_complete():
            w.got(ev, g.get_value())
        else:
            w.drop(ev)
            g.cancel()

    def do_all(self, w, k, s, s2, c):
        if w.kinds[s2] not in STORE_KINDS:
            s2 = s
        g, h = self.mkget(w, s, c), self.mkget(w, s2, None)
        e1 = w.ask(k, g, "get", s, self.cls_of(w, s, c))
        e2 = w.ask(k, h, "get", s2, None)
        yield UP.All(g, h)
        w.got(e1, g.get_value())
        w.got(e2, h.get_value())

    def do_nested(self, w, k, s, s2, d, c):
        """any(get a, any(get b, timeout)) with the losers cancelled."""
        if w.kinds[s2] not in STORE_KINDS:
            s2 = s
        g, h, t = self.mkget(w, s, c), self.mkget(w, s2, None), UP.Wait(d)
        e1 = w.ask(k, g, "get", s, self.cls_of(w, s, c))
        e2 = w.ask(k, h, "get", s2, None)
        yield UP.Any(g, UP.Any(h, t))
        for x, e in ((g, e1), (h, e2)):
            if x.is_complete():
                w.got(e, x.get_value())
            else:
                w.drop(e)
                x.cancel()

    def do_race(self, w, k, how, kids, d):
        """any/all of several requests, the rest cancelled; or those in an any with a timeout."""
        reqs = []
        for op, s, x in kids:
            if op == "wait":
                reqs.append((UP.Wait(x), None, op))
            elif op == "hold":
                reqs.append((Hold(w, k, s), None, op))
            elif op == "get":
                g = self.mkget(w, s, x)
                reqs.append((g, w.ask(k, g, "get", s, self.cls_of(w, s, x)), op))
            elif op == "put":
                item = w.new_item()
                w.where[item] = ("putting", k)
                g = UP.Put(w.stores[s], item)
                reqs.append((g, w.ask(k, g, "put", s, item), op))
            else:
                g = (UP.Get if op == "cget" else UP.Put)(w.stores[s], x)
                reqs.append((g, w.ask(k, g, op, s, x), op))
        both = (UP.Any if how == "any" else UP.All)(*(g for g, _, _ in reqs))
        yield UP.Any(both, UP.Wait(d)) if d is not None else both
        won = []
        for g, ev, op in reqs:
            if op == "wait":
                continue
            ev = ev or g.ev
            if g.is_complete():
                w.got(ev, g.get_value() if op == "get" else None)
                if op == "hold":
                    won.append(g)
            else:
                w.drop(ev)
                g.cancel()
        for g in won:
            yield UP.Wait(d or 0.0)
            w.holding.pop(g.ev)
            yield g

    def do_put(self, w, k, s, c, old):
        mine = [i for i, v in w.where.items() if v == ("task", k)]
        item = mine[0] if (mine and old) else w.new_item()
        p = UP.Put(w.stores[s], item)
        w.where[item] = ("putting", k)
        ev = w.ask(k, p, "put", s, item)
        yield p
        w.got(ev)

    def do_cget(self, w, k, s, a, _d):
        g = UP.Get(w.stores[s], a)
        ev = w.ask(k, g, "cget", s, a)
        yield g
        w.got(ev)

    def do_cput(self, w, k, s, a, _d):
        g = UP.Put(w.stores[s], a)
        ev = w.ask(k, g, "cput", s, a)
        yield g
        w.got(ev)

    def _cwait(self, w, k, g, kind, s, a, d):
        ev = w.ask(k, g, kind, s, a)
        yield UP.Any(g, UP.Wait(d))
        if g.is_complete():
            w.got(ev)
        else:
            w.drop(ev)
            g.cancel()

    def do_cgetwait(self, w, k, s, a, d):
        yield from self._cwait(w, k, UP.Get(w.stores[s], a), "cget", s, a, d)

    def do_cputwait(self, w, k, s, a, d):
        yield from self._cwait(w, k, UP.Put(w.stores[s], a), "cput", s, a, d)

    def _use(self, w, k, h, ev, d):
        w.got(ev)
        yield UP.Wait(d)
        w.holding.pop(ev)
        w.run.log(w.env.now, "release", k)
        yield h

    def do_hold(self, w, k, s, d, _):
        h = Hold(w, k, s)
        yield h
        yield from self._use(w, k, h, h.ev, d)

    def do_holdwait(self, w, k, s, d, patience):
        h = Hold(w, k, s)
        yield UP.Any(h, UP.Wait(patience))
        if h.is_complete():
            yield from self._use(w, k, h, h.ev, d)
        else:
            w.drop(h.ev)
            h.cancel()

    def on_interrupt(self, *, actor, cause):
        w, k = actor.w, actor.k
        if actor.done:
            ans = "I"
        else:
            ans = actor.answers.pop(0) if actor.answers else "E"
        w.run.log(w.env.now, "interrupt", k, ans)
        if ans == "I":
            return self.INTERRUPT.IGNORE
        for ev in [e for e, x in w.holding.items() if x == k]:
            # the user's clean-up: the slots the task holds go back
            w.holding.pop(ev)
            w.stores[w.res_index(ev.resource)].release(ev)
            w.run.cover("interrupted-while-holding")
        if w.drop_all(k):
            w.run.nontrivial = True
            w.run.cover("interrupted-while-requesting")
        return self.INTERRUPT.END if ans == "E" else self.INTERRUPT.RESTART


def run(plan, ctx):
    with ctx.context() as env:
        w = World(plan, ctx, env)
        env._hooks.append(w.instant)
        procs = {}

        def start(k):
            spec = plan["tasks"][k]
            a = Worker(name=f"w{k}")
            a.w, a.k, a.spec, a.answers, a.done = w, k, spec, list(spec["answers"]), False
            procs[k] = Prog().run(actor=a)

        for k, spec in enumerate(plan["tasks"]):
            at(env, spec["t0"], lambda k=k: start(k))

        def hit(f):
            p = procs.get(f["task"])
            if p is not None and p.is_alive:
                ctx.fault("interrupt")
                ctx.cover(f"interrupt-depth{f['depth']}-prio{f['prio']}")
                p.interrupt(cause="fault")

        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: hit(f), f["depth"], f["prio"])
        ctx.drive(env)
        w.instant()
        ctx.check(all((not p.is_alive) or any(v[0] == k for v in w.live.values()) for k, p in procs.items()),
                  "task-stuck", "a task is alive, waits for no request and nothing is scheduled")
