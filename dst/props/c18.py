"""C18: point-to-point messages arrive once, intact, at the right place and time."""
import copy
from collections import Counter
from math import ceil

import simpy
import upstage_des.api as UP
from upstage_des.communications.processes import generate_comms_wait

from dst.core import at

ID = "C18"
RUNS = {"quick": 30000, "thorough": 450000}
SHRINK = ["sends", "faults"]
RULE = ("2-5 actors with one to three communication stores (modes from the class, from the instance, lists, explicitly "
        "connected resource states) read by tasks, comms-wait processes or nobody exchange 1-15 texts, dictionaries, "
        "contents and messages over 1-3 managers with generated send times and retry settings, while the manager, nodes "
        "and links are blocked and repaired at generated times, also at send and retry instants, and senders are "
        "interrupted. Each message must arrive exactly once, unaltered, in the right store, at a time (or not at all) "
        "that the block history allows. Non-trivial: a message met a fault.")
REAL = ["upstage_des communications managers and processes, messages, communication stores, tasks; simpy"]
STUB = ["none"]
ASSUME = ["a fault that changes in the very instant of a try may be seen by it or not",
          "the try that first passes the retry limit may still deliver or not"]


class Radio(UP.Actor):
    aux = UP.CommunicationStore(modes=["uhf2", "a vhf", "pa-old", "sat "])
    walkie = UP.CommunicationStore(modes=["uhf", "vhf"])
    intercom = UP.CommunicationStore(modes=None)
    box = UP.ResourceState(default=simpy.Store)


class SubRadio(Radio):
    extra = UP.CommunicationStore(modes="sat")


def gen(rng, tier):
    grid = rng.choice([0.25, 0.5, 1.0])
    na = rng.randint(2, 5)
    pa = rng.choice(["pa", "pa", "pa two", "Pa,Two", ""])
    actors = [dict(sub=rng.random() < 0.5, modes=rng.choice([pa, [pa], [pa, "line"]]), fs=rng.random() < 0.2,
                   read={s: rng.choice(["task", "proc", None]) for s in ("walkie", "intercom", "extra", "box")}) for _ in range(na)]
    managers = [dict(mode=rng.choice(["uhf", "vhf", pa, "sat", None, "odd"]), send=rng.choice([0.0, 0.0, 0.3, grid, 2 * grid]),
                     max=rng.choice([0.0, 1.0, 1.0, 2.0, 3.1]), rate=rng.choice([0.166667, 0.25, 0.5, 1.0, 0.4]), debug=rng.random() < 0.3, over=[i for i in range(na) if rng.random() < 0.1]) for _ in range(rng.randint(1, 3))]
    sends = [dict(t=grid * rng.randint(0, 16), m=rng.randrange(len(managers)), src=rng.randrange(na), dst=rng.randrange(na), kind=rng.choice(["str", "dict", "content", "message", "again", "empty"]), own=rng.choice([None, "", "own", 0, 0, 0]),
                  via=rng.choice(["task", "task", "put"]), n=rng.randint(0, 99)) for _ in range(rng.randint(1, 15))]
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        what = rng.choice(["degrade", "node", "link", "link"])
        t = grid * rng.randint(0, 16) + rng.choice([0, 0, 0.11])
        m = rng.randrange(len(managers))
        a, b = rng.randrange(na), rng.randrange(na)
        depth, prio = rng.choice([0, 0, 1, 3]), rng.choice([0, 1, 2])
        faults.append(dict(what=what, on=True, t=t, m=m, a=a, b=b, depth=depth, prio=prio))
        if rng.random() < 0.8:
            k = rng.choice([None, None, rng.randint(0, 4)])
            dt = managers[m]["rate"] * k if k is not None else rng.choice([grid, 2 * grid, 3 * grid, 0.77])
            faults.append(dict(what=what, on=False, t=t + dt, m=m, a=a, b=b, depth=depth, prio=rng.choice([0, 1, 2])))
    cuts = [dict(t=grid * rng.randint(0, 16), k=rng.randint(0, 9), ans=rng.choice("IRE"), depth=rng.choice([0, 1, 2]), prio=rng.choice([0, 1, 2]))
            for _ in range(rng.choice([0, 0, 2]))]
    return dict(grid=grid, pa=pa, names=rng.choice([0, 0, 1, 2]), actors=actors, managers=managers, sends=sends, faults=faults + [dict(c, what="cut") for c in cuts])


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.actors = []
        for i, a in enumerate(plan["actors"]):
            modes = {"modes": list(a["modes"]) if isinstance(a["modes"], list) else a["modes"]}
            if a["fs"]:
                modes["kind"] = simpy.FilterStore if False else simpy.Store
            self.actors.append((SubRadio if a["sub"] else Radio)(name=f"a{i % plan['names'] if plan['names'] else i}", intercom=modes))
        self.managers, self.state = [], []
        for i, m in enumerate(plan["managers"]):
            kw = {}
            if m["mode"] in (None, "odd", "sat") or m["over"]:
                kw["init_entities"] = [(a, "walkie" if len(plan["sends"]) % 2 else "box") for a in self.actors if self.where(m, a) == "box"]
            mgr = UP.PointToPointCommsManager(name=f"m{i}", mode=m["mode"], send_time=m["send"], retry_max_time=m["max"], retry_rate=m["rate"], debug_logging=m["debug"], **kw)
            if len(plan["sends"]) % 2:
                for a, _ in kw.get("init_entities", ()):  # the last connection is what counts
                    mgr.connect(a, "box")
            mgr.run()
            self.managers.append(mgr)
            self.state.append([(-1.0, False, Counter(), Counter())])
        self.arrived, self.sent, self.known, self.tasks, self.old = [], [], set(), [], []
        self.left, self.asis = {}, {}
        for i, a in enumerate(plan["actors"]):
            for s, how in a["read"].items():
                if s == "extra" and not a["sub"]:
                    continue
                self.reader(i, s, how)
            self.left[(i, "aux")] = 0
        for s in plan["sends"]:
            at(env, s["t"], lambda s=s: self.send(s))
        for f in plan["faults"]:
            if f["what"] == "cut":
                at(env, f["t"], lambda f=f: self.cut(f), f["depth"], f["prio"])
            else:
                at(env, f["t"], lambda f=f: self.toggle(f), f["depth"], f["prio"])
        env._hooks.append(self.instant)

    def where(self, m, actor):
        """The store state a message of this manager has to end up in."""
        if any(self.actors[i] is actor for i in m["over"]):  # Explicitly connected, whatever stores of the mode there are
            return "box"
        if m["mode"] in ("uhf", "vhf"):
            return "walkie"
        if m["mode"] == self.plan["pa"]:
            return "intercom"
        if m["mode"] == "sat" and isinstance(actor, SubRadio):
            return "extra"
        return "box"

    def reader(self, i, s, how):
        actor, store, w, env = self.actors[i], getattr(self.actors[i], s), self, self.env
        if how == "task":
            class Read(UP.Task):
                def task(self, *, actor):
                    while True:
                        msg = yield UP.Get(getattr(actor, s))
                        w.arrived.append((env.now, msg.content, msg, i, s))
                        w.stamp(msg)
            Read().run(actor=actor)
        elif how == "proc":
            def got(content):
                w.arrived.append((env.now, content, None, i, s))
            generate_comms_wait(store, got)()
        else:
            self.left[(i, s)] = 0

    def stamp(self, msg):
        """A message tells its reader when it was sent on to the store."""
        self.ctx.check(msg.time_sent == self.env.now, "stamp", lambda: f"arrived at {self.env.now}, says it was sent at {msg.time_sent}: {msg.content}")

    def instant(self):
        for (i, s), n in self.left.items():
            items = getattr(self.actors[i], s).items
            self.ctx.check(len(items) >= n, "lost", f"{s} of a{i} lost items at {self.env.now}")
            for msg in items[n:]:
                self.arrived.append((self.env.now, msg.content, msg, i, s))
                self.stamp(msg)
            self.left[(i, s)] = len(items)

    # ---- sending
    def content(self, s):
        k = len(self.sent)
        a, b, mgr, kind = self.actors[s["src"]], self.actors[s["dst"]], self.managers[s["m"]], s["kind"]
        if kind == "again" and self.old:
            return self.old[s["n"] % len(self.old)]
        if kind == "empty":
            return ["", {}, UP.MessageContent(data={}), UP.MessageContent(data={}, message="")][s["n"] % 4]
        if kind == "str":
            return f"text {k}"
        if kind == "dict":
            return {"n": k, "x": [s["n"]]}
        c = UP.MessageContent(data={"k": k, "deep": [1, s["n"]]}, message=f"c{k}")
        if kind == "content":
            return c
        msg = UP.Message(a, c, b, header=f"h{k}", mode=mgr.mode if s["own"] == 0 else s["own"])
        self.asis[id(msg)] = (msg, a, b, msg.header, msg.mode, msg.uid)
        return msg

    def record(self, s, what, put):
        src, dst = self.actors[s["src"]], self.actors[s["dst"]]
        made = self.env.now
        if isinstance(what, UP.Message):
            made = what.time_created
            src, dst = self.asis[id(what)][1:3]
            want, whole = copy.deepcopy(what.content), what
            self.old.append(what)
        else:
            want, whole = (copy.deepcopy(what) if isinstance(what, UP.MessageContent) else
                           UP.MessageContent(data=copy.deepcopy(what)) if isinstance(what, dict) else UP.MessageContent(data={}, message=what)), None
        self.sent.append(dict(t=self.env.now, made=made, m=s["m"], src=src, dst=dst, want=want, whole=whole, header=self.asis[id(whole)][3] if whole else None, mode=self.asis[id(whole)][4] if whole else self.managers[s["m"]].mode, put=put))

    def send(self, s):
        w, mgr = self, self.managers[s["m"]]
        src, dst = self.actors[s["src"]], self.actors[s["dst"]]
        if s["via"] == "put":
            what = self.content(s)
            ev = mgr.make_put(what, src, dst)
            self.record(s, what, ev)
            ev.as_event()
            return

        class Talk(UP.Task):
            def task(self, *, actor):
                what = w.content(s)
                ev = mgr.make_put(what, actor, dst)
                w.record(s, what, ev)
                yield ev
                yield UP.Wait(0.5)

            def on_interrupt(self, *, actor, cause):
                return {"I": self.INTERRUPT.IGNORE, "E": self.INTERRUPT.END, "R": self.INTERRUPT.RESTART}[cause]

        self.tasks.append(Talk().run(actor=src))

    def cut(self, f):
        if self.tasks and self.tasks[f["k"] % len(self.tasks)].is_alive:
            self.tasks[f["k"] % len(self.tasks)].interrupt(cause=f["ans"])
            self.ctx.fault("interrupt-sender-" + f["ans"])

    # ---- faults
    def toggle(self, f):
        mgr, hist = self.managers[f["m"]], self.state[f["m"]]
        _, deg, nodes, links = hist[-1]
        nodes, links = nodes.copy(), links.copy()
        a, b = self.actors[f["a"]], self.actors[f["b"]]
        self.ctx.fault(("block-" if f["on"] else "repair-") + f["what"])
        if f["what"] == "degrade":
            mgr.comms_degraded = deg = f["on"]
        elif f["what"] == "node":
            if f["on"]:
                mgr.blocked_nodes.append(a)
                nodes[a] += 1
            elif nodes[a]:
                mgr.blocked_nodes.remove(a)
                nodes[a] -= 1
        elif f["on"]:
            mgr.blocked_links.append((a, b))
            links[(a, b)] += 1
        elif links[(a, b)]:
            mgr.blocked_links.remove((a, b))
            links[(a, b)] -= 1
        hist.append((self.env.now, deg, nodes, links))

    def blocked(self, send, t):
        """The answers the block history allows for a try at time t."""
        hist, a, b = self.state[send["m"]], send["src"], send["dst"]
        last = [h for h in hist if h[0] < t][-1:] + [h for h in hist if h[0] == t]
        return {bool(d or n[a] or n[b] or l[(a, b)]) for _, d, n, l in last}

    def outcomes(self, send):
        m = self.plan["managers"][send["m"]]
        n = ceil(m["max"] / m["rate"] - 1e-9)
        t, k, out = send["t"], 0, set()
        while True:
            states = self.blocked(send, t)
            if True in states:
                self.ctx.nontrivial = True
            if False in states:
                out.add(t + m["send"] if m["send"] > 0 else t)
            if states == {False}:
                return out
            if k == n or k == n - 1 and n * m["rate"] > m["max"] + 1e-9:
                out.add(None)
            if k == n:
                return out
            k += 1
            t += m["rate"]

    def judge(self):
        ctx = self.ctx
        open_ = list(self.arrived)
        done = set()
        for k, s in enumerate(self.sent):
            if k in done:
                continue
            twins = [j for j, x in enumerate(self.sent) if x["want"] == s["want"]]
            done.update(twins)
            mine = [x for x in open_ if x[1] == s["want"] and (x[2] is None or s["whole"] is None or x[2] is s["whole"])]
            open_ = [x for x in open_ if not any(x is y for y in mine)]
            jobs = []
            for j in twins:
                x = self.sent[j]
                m, i = self.plan["managers"][x["m"]], self.actors.index(x["dst"])
                jobs.append((i, self.where(m, x["dst"]), self.outcomes(x)))
            shown = [(x[0], x[3], x[4]) for x in mine]
            what = f"message {k} ({s['want']}) sent at {[self.sent[j]['t'] for j in twins]} by {s['src'].name}, allowed {jobs}, arrived {shown} over {[self.plan['managers'][self.sent[j]['m']] for j in twins]}"
            ctx.check(len(mine) <= len(twins), "duplicate", what)
            places = {(i, store) for i, store, _ in jobs}
            ctx.check(all((x[3], x[4]) in places for x in mine), "wrong-place", what)
            ctx.check(len(mine) >= sum(None not in ok for _, _, ok in jobs), "lost", what)
            ctx.check(self.match(shown, jobs), "time", what)
            ctx.cover("delivered", len(mine))
            ctx.cover("dropped", len(twins) - len(mine))
            for x in mine:
                msg = x[2]
                if msg is not None and len(twins) == 1:
                    ctx.check(msg.sender is s["src"] and msg.destination is s["dst"], "altered", f"{what}: {msg}")
                    ctx.check(s["whole"] is None or msg.header == s["header"], "altered", f"{what}: header {msg.header}")
                    ctx.check(msg.mode == s["mode"], "altered", f"{what}: mode {msg.mode}")
                    ctx.check(msg.time_created == s["made"] and (s["whole"] is None or msg.uid == self.asis[id(msg)][5]), "altered", f"{what}: created at {msg.time_created}, {msg.uid}")
        ctx.check(not open_, "unsent", lambda: f"arrived without being sent (or altered): {[(x[0], x[1], x[3], x[4]) for x in open_]}, sent {[s['want'] for s in self.sent]}")

    def match(self, arrived, jobs):
        """Is there a way to explain every arrival by one sending?"""
        if not jobs:
            return not arrived
        (i, store, ok), rest = jobs[0], jobs[1:]
        for n, (t, a, s) in enumerate(arrived):
            if (a, s) == (i, store) and t in ok and self.match(arrived[:n] + arrived[n + 1:], rest):
                return True
        return None in ok and self.match(arrived, rest)


def run(plan, ctx):
    with ctx.context() as env:
        w = World(plan, ctx, env)
        ctx.drive(env)
        w.judge()
        ctx.log([(x[0], str(x[1]), x[3], x[4]) for x in w.arrived])
