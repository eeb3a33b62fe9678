"""C15: reservations never promise the same quantity twice and expire on time."""
import upstage_des.api as UP
from upstage_des.resources.monitoring import SelfMonitoringReserveContainer
from upstage_des.resources.reserve import ReserveContainer

from dst.core import INF, at

ID = "C15"
RUNS = {"quick": 45000, "thorough": 1500000}
SHRINK = ["ops"]
RULE = ("3-60 reserve, take, cancel, put and read operations by 1-5 requesters (actors, numbers, strings and tuples that "
        "are equal but not the same object) on a container of generated amount and capacity, with reservations that "
        "never expire or expire at, before and after other operations of the same and of other requesters. After every "
        "operation and at every end of an instant the amounts, the reservations held and the answers are compared with "
        "a reference table. Non-trivial: a reservation expired or was refused.")
REAL = ["upstage_des reserve containers, plain and self-monitoring; simpy"]
STUB = ["none"]
ASSUME = ["operations in the very instant of an expiry may come before or after it",
          "a requester that holds a reservation is refused another (documented by the code, needed to tell reservations apart)"]


class Req(UP.Actor):
    pass


def gen(rng, tier):
    grid = rng.choice([0.5, 1.0, 1.0])
    n = rng.randint(1, 5)
    free = rng.random() < 0.3
    cap = rng.choice([None, 10, 10, 20, 1])
    init = rng.choice([0, 5, 10, 10]) if cap is None else rng.choice([0, cap, cap, cap / 2])
    ops = []
    for _ in range(rng.randint(3, 60)):
        op = rng.choice(["reserve"] * 4 + ["take", "cancel", "put", "put", "read"])
        q = rng.choice([0, 0.5, 1, 2, 3, 4, 5, 8, 10, 12]) if not free else round(rng.random() * 8, 3)
        t = grid * rng.randint(0, 24)
        if rng.random() < 0.2:
            t = round(t + rng.random() * grid, 3)
        ops.append(dict(op=op, t=t, who=rng.randrange(n), q=q, exp=rng.choice([None, None, 0, 1, 2, 3, 3, 7, 1.25, 1e-5]) if True else None,
                        up=rng.random() < 0.2, edge=rng.choice([1e-7, -1e-7, 1e-4, -1e-4, 3e-8, -0.01]) if rng.random() < 0.1 else None, depth=rng.choice([0, 0, 0, 1, 2]), prio=rng.choice([0, 1, 1, 2])))
    return dict(grid=grid, n=n, kinds=[rng.choice(["actor", "str", "tuple", "num"]) for _ in range(n)], cap=cap, init=init,
                mon=rng.random() < 0.4, t0=rng.choice([0.0, 0.0, 2.5]), ops=ops)


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.t0 = plan["t0"]
        cap = INF if plan["cap"] is None else plan["cap"]
        cls = SelfMonitoringReserveContainer if plan["mon"] else ReserveContainer
        self.box = cls(env, init=plan["init"], capacity=cap)
        self.stored, self.cap = plan["init"], cap
        # sums of multiples of a half have no rounding
        self.exact = all(o["q"] * 2 == int(o["q"] * 2) and not o.get("edge") for o in plan["ops"])
        self.held = {}    # requester number -> [quantity, expiry]
        self.actors = {i: Req(name=f"r{i}") for i, k in enumerate(plan["kinds"]) if k == "actor"}
        env._hooks.append(self.instant)
        for o in plan["ops"]:
            at(env, self.t0 + o["t"], lambda o=o: self.do(o), o["depth"], o["prio"])

    def key(self, i):
        k = self.plan["kinds"][i]
        if k == "actor":
            return self.actors[i]
        # a new object each time
        return {"str": "".join(["r", str(i)]), "tuple": ("r", i), "num": 10000 + i}[k]

    def sync(self):
        """Follow the real container in what an instant leaves open: has an expiry of now happened yet?"""
        real = self.box.queued
        for i in list(self.held):
            if self.held[i][1] == self.env.now and self.key(i) not in real:
                del self.held[i]
                self.ctx.cover("expired")
                self.ctx.nontrivial = True

    def compare(self, what):
        ctx, box = self.ctx, self.box
        self.sync()
        reserved = sum(q for q, _ in self.held.values())
        real = box.queued
        want = [self.key(i) for i in self.held]
        ctx.check(len(real) == len(want) and all(k in real for k in want), "reservations", lambda: f"{what} at {self.env.now}: {real} held, expected {want}")
        for got, name in ((box.available, "available"), (box.remaining, "remaining")):
            ctx.check(abs(got - (self.stored - reserved)) < 1e-9, "available", f"{what} at {self.env.now}: {name} {got}, stored {self.stored}, reserved {reserved}")
        if self.plan["mon"]:
            got = box._quantities[-1][1]
            ctx.check(abs(got - self.stored) < 1e-9, "stored", f"{what} at {self.env.now}: recorded {got}, stored {self.stored}")

    def instant(self):
        for i, (q, exp) in self.held.items():
            self.ctx.check(exp > self.env.now or self.key(i) not in self.box.queued, "not-expired", f"reservation of {self.key(i)} due {exp} still held at {self.env.now}")
        self.compare("end of instant")

    def do(self, o):
        ctx, env, box = self.ctx, self.env, self.box
        self.compare("before " + o["op"])
        i, q, op = o["who"], o["q"], o["op"]
        key = self.key(i)
        reserved = sum(x for x, _ in self.held.values())
        if o.get("edge"):     # just about everything there is, or a bit too much
            q = max(0.0, (self.stored - reserved if op == "reserve" else min(self.cap, 1e3) - self.stored) + o["edge"])
        what = f"{op} by {key} of {q} at {env.now}"
        if any(e == env.now for _, e in self.held.values()):
            ctx.fault("op-at-expiry")
        if op == "reserve":
            free = self.stored - reserved
            if abs(free - q) < 1e-9 and (free != q or not self.exact):
                return
            want = free >= q and i not in self.held
            got = box.reserve(key, q, expiration=o["exp"]) if o["exp"] is not None else box.reserve(key, q)
            ctx.check(got is want, "granted", f"{what}: answered {got}, stored {self.stored}, reserved {reserved}, holding {i in self.held}")
            if want:
                self.held[i] = [q, INF if o["exp"] is None else env.now + o["exp"]]
            else:
                ctx.nontrivial = True
                ctx.fault("refused")
        elif op == "take":
            try:
                got = box.take(key)
            except ValueError:
                got = None
            want = self.held.pop(i)[0] if i in self.held else None
            ctx.check(got == want, "taken", f"{what}: got {got}, reserved {want}")
            self.stored -= want or 0
            if got is None:
                ctx.fault("take-without")
        elif op == "cancel":
            got = box.cancel_request(key)
            ctx.check(bool(got) == (i in self.held), "cancelled", f"{what}: answered {got}, holding {i in self.held}")
            self.held.pop(i, None)
            ctx.fault("cancel")
        elif op == "put":
            new = self.stored + q
            if abs(new - self.cap) < 1e-9 and (new != self.cap or not self.exact):
                return
            try:
                box.put(q, capacity_increase=o["up"])
                got = True
            except ValueError:
                got = False
            want = new <= self.cap or o["up"]
            ctx.check(got == want, "put", f"{what} (increase {o['up']}): accepted {got}, stored {self.stored}, reserved {reserved}, capacity {self.cap}")
            if got:
                self.stored = new
                self.cap = max(self.cap, new)
            else:
                ctx.fault("put-refused")
        ctx.log(what, round(box.available, 6), len(box.queued))
        self.compare("after " + what)


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"]) as env:
        World(plan, ctx, env)
        ctx.drive(env)
