"""C19: routed messages follow working shortest routes and arrive once."""
from collections import Counter
from math import ceil

import upstage_des.api as UP
from upstage_des.communications.routing import RoutingCommsManagerBase

from dst.core import at

ID = "C19"
RUNS = {"quick": 24000, "thorough": 350000}
SHRINK = ["sends", "faults", "links"]
MAX_STEPS = 400_000
RULE = ("3-8 actors joined by generated one- and two-way links (rings, trees, ladders, random, with islands; links added "
        "while messages travel) exchange 1-8 messages through a routing manager with generated send time, retry settings "
        "and global_ignore, while the manager, nodes and directed links are blocked and repaired at generated times, "
        "also at the instants of sending, retrying and replanning, some for good. Every message has to arrive at a time "
        "(or be dropped) that some sequence of shortest-route choices over the block history explains, once, in the "
        "right store; logged moves are edges that worked when crossed; when nothing is under way the schedule is empty. "
        "Non-trivial: a message met a blocked hop.")
REAL = ["upstage_des routing and communications managers, messages, communication stores, tasks; simpy"]
STUB = ["none"]
ASSUME = ["a fault or new link that changes in the very instant of a try may be seen by it or not",
          "of several shortest routes any may be chosen",
          "without global_ignore a message may travel back and forth between permanently blocked routes (documented)"]
PENDING = "pending"
CAP = 4000


class Node(UP.Actor):
    aux = UP.CommunicationStore(modes=["net2", "other"])
    box = UP.CommunicationStore(modes=None)
    late = UP.CommunicationStore(modes=["late"])


class Chooser(UP.RoutingTableCommsManager):
    """A manager whose user has specialised the choice of hops (documented extension)."""

    def select_hop(self, source, dest, ignore_nodes=None):
        hop = super().select_hop(source, dest, ignore_nodes)
        self.choices.append((self.env.now, source, dest, list(ignore_nodes or []), hop))
        return hop


class TableManager(RoutingCommsManagerBase):
    """A user's own routing on the base class: the links of the plan, first shortest in a fixed order."""

    def select_hop(self, source, dest, ignore_nodes=None):
        bad = set(self.index[x] for x in (ignore_nodes or []))
        hops = self.w.hops(self.w.edges_now(), self.index[source], self.index[dest], bad)
        self.choices.append((self.env.now, source, dest, list(ignore_nodes or []), None))
        return self.w.actors[min(hops)] if hops else None


def gen(rng, tier):
    grid = rng.choice([0.25, 0.5, 1.0])
    n = rng.randint(3, 8)
    shape = rng.choice(["ring", "line", "ladder", "random", "random", "star"])
    pairs = set()
    if shape == "ring":
        pairs = {(i, (i + 1) % n) for i in range(n)}
    elif shape == "line":
        pairs = {(i, i + 1) for i in range(n - 1)}
    elif shape == "star":
        pairs = {(0, i) for i in range(1, n)}
    elif shape == "ladder":
        pairs = {(i, i + 2) for i in range(n - 2)} | {(i, i + 1) for i in range(0, n - 1, 2)}
    for _ in range(rng.randint(0, 2 * n) if shape == "random" else rng.randint(0, 2)):
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b:
            pairs.add((a, b))
    both = rng.choice([0.2, 0.7, 1.0])
    links = [dict(a=a, b=b, two=rng.random() < both, t=grid * rng.randint(1, 10) if rng.random() < 0.1 else None) for a, b in sorted(pairs)]
    rate = rng.choice([0.166667, 0.25, 0.5, 1.0, 0.4])
    send = rng.choice([0.0, 0.3, grid, 0.01, 2 * grid])
    sends = [dict(t=grid * rng.randint(0, 12), src=rng.randrange(n), dst=rng.randrange(n), via=rng.choice(["task", "put"]), msg=rng.random() < 0.3,
                  again=rng.randrange(4) if rng.random() < 0.2 else None)
             for _ in range(rng.randint(1, 8))]
    faults = []
    for _ in range(rng.choice([0, 1, 2, 4, 7, 10])):
        what = rng.choice(["degrade", "node", "node", "link", "link", "link", "link", "both"])
        t = grid * rng.randint(0, 12) + rng.choice([0, 0, 0.11, send, rate])
        lk = rng.choice(links) if links else dict(a=0, b=1)
        a, b = (lk["a"], lk["b"]) if rng.random() < 0.5 else (lk["b"], lk["a"])
        depth, prio = rng.choice([0, 0, 1, 3]), rng.choice([0, 1, 2])
        faults.append(dict(what=what, on=True, t=t, a=a, b=b, depth=depth, prio=prio))
        if rng.random() < 0.7:
            k = rng.choice([None, None, rng.randint(0, 6)])
            faults.append(dict(what=what, on=False, t=t + (rate * k if k is not None else rng.choice([grid, 2 * grid, 5 * grid, 0.77])), a=a, b=b,
                               depth=depth, prio=rng.choice([0, 1, 2])))
    plan = dict(twins=rng.random() < 0.2, n=n, links=links, rate=rate, max=rng.choice([0.0, 0.5, 1.0, 1.0, 2.0, 3.1]), send=send, ignore=rng.random() < 0.4,
                kind=rng.choice(["table", "table", "chooser", "own"]), sends=sends, faults=faults)
    if not plan["send"] and not plan["max"] and not plan["ignore"] and faults:
        plan["send"] = 0.01  # back and forth between blocked routes without time passing never ends (documented)
    return plan


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.actors = [Node(name="n" if plan["twins"] else f"n{i}", box={"modes": ["net", "x"]}) for i in range(plan["n"])]
        self.index = {a: i for i, a in enumerate(self.actors)}
        cls = {"table": UP.RoutingTableCommsManager, "chooser": Chooser, "own": TableManager}[plan["kind"]]
        self.mgr = m = cls(name="m", mode="net", send_time=plan["send"], retry_max_time=plan["max"], retry_rate=plan["rate"],
                           global_ignore=plan["ignore"], debug_logging=True)
        m.choices, m.w, m.index = [], self, self.index
        self.edges = [(-1.0, frozenset())]
        self.state = [(-1.0, False, Counter(), Counter())]
        for lk in plan["links"]:
            if lk["t"] is None:
                self.link(lk, -1.0)
            else:
                at(env, lk["t"], lambda lk=lk: self.link(lk, env.now))
        m.run()
        self.sent, self.arrived, self.left = [], [], Counter()
        for s in plan["sends"]:
            at(env, s["t"], lambda s=s: self.send(s))
        for f in plan["faults"]:
            at(env, f["t"], lambda f=f: self.toggle(f), f["depth"], f["prio"])
        env._hooks.append(self.instant)

    def link(self, lk, t):
        a, b = lk["a"], lk["b"]
        if self.plan["kind"] != "own":
            self.mgr.connect_nodes(self.actors[a], self.actors[b], two_way=lk["two"])
        new = {(a, b)} | ({(b, a)} if lk["two"] else set())
        self.edges.append((t, self.edges[-1][1] | new))
        if t >= 0:
            self.ctx.fault("link-added")

    def edges_now(self):
        return self.edges[-1][1]

    def instant(self):
        for i, a in enumerate(self.actors):
            for s in ("box", "aux", "late"):
                items = getattr(a, s).items
                for msg in items[self.left[i, s]:]:
                    self.arrived.append((self.env.now, msg, i, s))
                    self.ctx.check(msg.time_sent == self.env.now, "stamp", lambda: f"arrived at {self.env.now}, says it was sent at {msg.time_sent}: {msg.content}")
                self.left[i, s] = len(items)

    def send(self, s):
        k, what = len(self.sent), None
        if s["again"] is not None:
            # one of the messages that have arrived is sent once more
            self.instant()
            old = [x for x in self.sent if any(x["key"] == y[1].content.data["k"] for y in self.arrived)]
            old = old[s["again"] % len(old)] if old else None
            if old and sum(y[1].content.data["k"] == old["key"] for y in self.arrived) == sum(x["key"] == old["key"] for x in self.sent):
                s = dict(s, src=old["a"], dst=old["b"])
                k = old["key"]
                what = [y[1] for y in self.arrived if y[1].content.data["k"] == k][-1]
                self.ctx.fault("sent-again")
        a, b = self.actors[s["src"]], self.actors[s["dst"]]
        if what is None:
            what = {"k": k, "deep": [k]} if not s["msg"] else UP.Message(a, UP.MessageContent(data={"k": k, "deep": [k]}), b, mode="net")
        self.sent.append(dict(t=self.env.now, a=s["src"], b=s["dst"], key=k, nth=sum(x["key"] == k for x in self.sent), log=len(self.mgr.debug_log)))
        put = self.mgr.make_put(what, a, b)
        if s["via"] == "put":
            put.as_event()
        else:
            class Talk(UP.Task):
                def task(self, *, actor):
                    yield put
            Talk().run(actor=a)

    def toggle(self, f):
        mgr, (_, deg, nodes, links) = self.mgr, self.state[-1]
        nodes, links = nodes.copy(), links.copy()
        a, b = self.actors[f["a"]], self.actors[f["b"]]
        self.ctx.fault(("block-" if f["on"] else "repair-") + f["what"])
        if f["what"] == "degrade":
            mgr.comms_degraded = deg = f["on"]
        elif f["what"] == "node":
            if f["on"]:
                mgr.blocked_nodes.append(a)
                nodes[f["a"]] += 1
            elif nodes[f["a"]]:
                mgr.blocked_nodes.remove(a)
                nodes[f["a"]] -= 1
        else:
            for x, y in [(f["a"], f["b"])] + ([(f["b"], f["a"])] if f["what"] == "both" else []):
                pair = (self.actors[x], self.actors[y])
                if f["on"]:
                    mgr.blocked_links.append(pair)
                    links[x, y] += 1
                elif links[x, y]:
                    mgr.blocked_links.remove(pair)
                    links[x, y] -= 1
        self.state.append((self.env.now, deg, nodes, links))

    # ---- the model
    @staticmethod
    def at_time(hist, t):
        return [h for h in hist if h[0] < t][-1:] + [h for h in hist if h[0] == t]

    def blocked(self, a, b, t):
        return {bool(d or n[a] or n[b] or l[a, b]) for _, d, n, l in self.at_time(self.state, t)}

    @staticmethod
    def hops(edges, u, v, bad):
        """The next hops of all shortest routes from u to v that avoid the bad nodes."""
        if v in bad:
            return set()
        dist, layer = {v: 0}, [v]
        while layer:
            new = []
            for y in layer:
                for a, b in edges:
                    if b == y and a not in dist and (a == u or a not in bad):
                        dist[a] = dist[y] + 1
                        if a != u:
                            new.append(a)
            layer = new
        if u not in dist:
            return set()
        return {b for a, b in edges if a == u and b not in bad and b != u and dist.get(b) == dist[u] - 1}

    def choices(self, u, v, bad, t):
        out = set()
        for _, edges in self.at_time(self.edges, t):
            hs = self.hops(edges, u, v, bad)
            if self.plan["kind"] == "own":
                hs = {min(hs)} if hs else hs
            out |= hs or {None}
        return out

    def tries(self, a, b, t):
        """Outcomes (sent?, when) of trying one hop."""
        p = self.plan
        n = ceil(p["max"] / p["rate"] - 1e-9)
        k, out = 0, []
        while True:
            states = self.blocked(a, b, t)
            if True in states:
                self.ctx.nontrivial = True
            if False in states:
                out.append((True, t))
            if states == {False}:
                return out
            if k == n or k == n - 1 and n * p["rate"] > p["max"] + 1e-9:
                out.append((False, t))
            if k == n:
                return out
            k += 1
            t += p["rate"]

    def outcomes(self, s, horizon):
        p = self.plan
        seen, todo, out = set(), [(s["a"], s["t"], frozenset())], set()
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            u, t, bad = st
            if len(seen) > CAP:
                return None
            if u == s["b"]:
                out.add(t)
                continue
            if t > horizon:
                out.add(PENDING)
                continue
            for h in self.choices(u, s["b"], bad, t):
                if h is None:
                    out.add(None)
                    continue
                for ok, t2 in self.tries(u, h, t):
                    if ok:
                        todo.append((h, t2 + p["send"] if p["send"] > 0 else t2, bad if p["ignore"] else frozenset()))
                    else:
                        todo.append((u, t2, bad | {h}))
        return out

    def judge(self, horizon):
        ctx = self.ctx
        quiet = True
        for k, s in enumerate(self.sent):
            mine = [x for x in self.arrived if x[1].content.data.get("k") == s["key"]]
            later = [x for x in self.sent if x["key"] == s["key"] and x["nth"] > s["nth"]]
            s["end"] = later[0]["log"] if later else None
            mine = mine[s["nth"]:s["nth"] + 1 if later else None]
            ok = self.outcomes(s, horizon - 1e-9)
            what = f"message {k} n{s['a']}->n{s['b']} sent at {s['t']}: arrived {[(x[0], x[2], x[3]) for x in mine]}, allowed {ok}; moves {self.moves(s)}"
            ctx.check(len(mine) <= 1, "duplicate", what)
            for t, msg, i, store in mine:
                ctx.check((i, store) == (s["b"], "box"), "wrong-place", what)
                ctx.check(msg.content.data == {"k": s["key"], "deep": [s["key"]]} and msg.sender is self.actors[s["a"]] and msg.destination is self.actors[s["b"]]
                          and msg.mode == "net", "altered", what)
            if ok is None or PENDING in ok:
                quiet = False
            if ok is None:
                ctx.cover("too-many-choices")
                continue
            if not mine:
                ctx.check(ok & {None, PENDING}, "lost", what)
                ctx.cover("dropped" if None in ok else "pending")
            else:
                ctx.check(mine[0][0] in ok, "time", what)
                ctx.cover("delivered")
            self.check_moves(k, s, mine, what)
        ctx.check(len(self.arrived) == sum(1 for x in self.arrived if x[1].content.data.get("k") in range(len(self.sent))), "unsent", "a message nobody sent")
        if quiet:
            ctx.check(not self.env._queue, "never-ends", f"t={self.env.now}: something is still scheduled: {[(q[0], q[3]) for q in self.env._queue[:3]]}")

    def moves(self, s):
        return [(e["time"], self.index[e["current"]], self.index[e["destination"]]) for e in self.mgr.debug_log[s["log"]:s["end"]]
                if e["event"] == "Moved message" and e["message"].content.data.get("k") == s["key"]]

    def check_moves(self, k, s, mine, what):
        """The logged moves form a chain over working links."""
        cur, last = s["a"], s["t"]
        for t, x, y in self.moves(s):
            self.ctx.check(x == cur and t >= last, "broken-route", what)
            self.ctx.check(any((x, y) in e for _, e in self.at_time(self.edges, t)), "no-such-link", what)
            self.ctx.check(False in self.blocked(x, y, t), "crossed-blocked-link", what)
            cur, last = y, t
        if mine and s["a"] != s["b"]:
            self.ctx.check(cur == s["b"], "broken-route", what)


def run(plan, ctx):
    with ctx.context() as env:
        w = World(plan, ctx, env)
        end = max([x["t"] for x in plan["sends"] + plan["faults"]] + [0.0])
        horizon = end + 40 * (plan["max"] + plan["rate"] + plan["send"])
        ctx.drive(env, until=horizon)
        w.instant()
        w.judge(horizon)
        ctx.log([(x[0], x[2], x[3], x[1].content.data["k"]) for x in w.arrived])
