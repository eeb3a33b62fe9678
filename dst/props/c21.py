"""C21: stepped motion tells sensors what the samples show."""
import math

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical

from dst.core import at

ID = "C21"
RUNS = {'quick': 6000, 'thorough': 60000}
SHRINK = ["movers", "moves", "path", "sensors", "ops", "particular", "later"]
RULE = ("1-4 detectable things (actors with or without detectability, plain objects, actors that sense as well) move, stop, "
        "pause and get repositioned past 1-3 static or moving sensors (radius or own checker, radius changing over time), "
        "registered at the start or late, sampled every step and for some also at a faster own rate, while movers are "
        "interrupted, lose, regain or flicker detectability, also from inside notifications; the run goes to an end time "
        "or until nothing is left, and goes on with a second batch of movers. At the end of every sampled instant the "
        "sensors' views have to equal the positions there; no other instant may change them, except losses and regains of "
        "detectability, at once. Non-trivial: a notification and a fault.")
REAL = ["upstage_des SteppedMotionManager, location, detectability and changing states, tasks; simpy"]
STUB = []
ASSUME = ["what changes in the very instant of a sample may be seen by it or not",
          "a mover that stops is no longer sampled until it moves again or is registered again, and stays in view (documented)",
          "positions within 1e-9 of the edge may count either way"]


class Sees:
    def entity_entered_range(self, e):
        self.w.notified(self.k, e, True)

    def entity_exited_range(self, e):
        self.w.notified(self.k, e, False)


class Thing(Sees, UP.Actor):
    loc = UP.CartesianLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    reach = UP.LinearChangingState()


class Naked(Sees, UP.Actor):
    loc = UP.CartesianLocationChangingState()
    reach = UP.LinearChangingState()


class GThing(Sees, UP.Actor):
    loc = UP.GeodeticLocationChangingState()
    seen = UP.DetectabilityState(default=True)
    reach = UP.LinearChangingState()


class GNaked(Sees, UP.Actor):
    loc = UP.GeodeticLocationChangingState()
    reach = UP.LinearChangingState()


METERS = {"m": 1.0, "km": 1000.0, "nmi": 1852.0, "mi": 1609.344, "ft": 0.3048}


def xyz(geo, p):
    """Straight-line coordinates of a place, in distance units, from first principles."""
    if geo["model"] == "flat":
        z = p.z * METERS[geo["au"]] / METERS[geo["du"]] if p.use_altitude_units else p.z
        return p.x, p.y, z
    lat, lon = (p.lat, p.lon) if p.in_radians else (math.radians(p.lat), math.radians(p.lon))
    h = p.alt * METERS[geo["au"]]
    f = 1 / 298.257223563 if geo["model"] == "wgs" else 0.0
    e2 = f * (2 - f)
    n = 6378137.0 / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    u = METERS[geo["du"]]
    return ((n + h) * math.cos(lat) * math.cos(lon) / u, (n + h) * math.cos(lat) * math.sin(lon) / u, (n * (1 - e2) + h) * math.sin(lat) / u)


class Plain(Sees):
    def __init__(self, loc, reach, loc2=None):
        self.loc, self.reach = loc, reach
        self.loc2, self.far = loc2 or loc, reach / 2


class Picky(Plain):
    def detection_checker(self, loc):
        return min(self.inside(loc)) > 0

    def inside(self, loc):
        g, wide = self.w.geo, self.wide
        if g["model"] == "flat":
            return loc.x, wide - abs(loc.y)
        return loc.lat - g["lat"], wide / self.w.scale - abs(loc.lon - g["lon"]) * 10


def gen(rng, tier):
    grid = rng.random() < 0.5
    geo = dict(model=rng.choice(["flat", "flat", "flat", "sphere", "wgs"]), du=rng.choice(["nmi", "km", "m", "mi"]), au=rng.choice(["ft", "m", "km"]),
               lat=rng.uniform(-60, 60), lon=rng.uniform(-170, 170))
    up = rng.choice([0.0, 0.0, 2.0, 6.0])

    def pt():
        return [float(rng.randint(-6, 6)) if grid else rng.uniform(-6, 6) for _ in range(2)] + [rng.uniform(0, up) if up else 0.0, rng.random() < 0.3]
    dt = rng.choice([0.25, 0.5, 1.0, 0.3, 0.07])
    span = 12.0

    def mover(first):
        moves = [dict(wait=rng.choice([0.0, 0.5, 1.0, rng.uniform(0, 3)]), path=[pt() for _ in range(rng.randint(1, 3))], speed=rng.choice([1.0, 2.0, 5.0, 0.5]),
                      tele=pt() if rng.random() < 0.15 else None) for _ in range(rng.randint(0 if first else 1, 3))]
        return dict(kind=rng.choice(["thing", "thing", "thing", "naked", "plain"]), at=pt(), at2=pt(), t=rng.choice([0.0, 0.0, rng.uniform(0, 5)]), seen=rng.random() < 0.85, moves=moves,
                    sense=rng.random() < 0.3, r=rng.choice([1.0, 2.0, 4.0, rng.uniform(0.5, 6)]), grow=rng.choice([None, None, 0.3, -0.2]),
                    reg=rng.choice([None, None, 0.0, rng.uniform(0, span), dt * rng.randint(1, 9)]))
    movers = [mover(True) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    sensors = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        react = dict(on=rng.choice(["enter", "exit", "both"]), do=rng.choice(["lose", "lose", "stop", "lose-other", "regain-other"]), n=rng.randint(1, 2)) if rng.random() < 0.4 else None
        sensors.append(dict(kind=rng.choice(["plain", "picky", "plain"]), at=pt(), r=rng.choice([1.0, 2.0, 5.0, rng.uniform(0.5, 6)]), t=rng.choice([None, None, rng.uniform(0, span), dt * rng.randint(1, 9)]), react=react))
    ops = []
    for _ in range(rng.choice([0, 1, 2, 4, 6])):
        ops.append(dict(what=rng.choice(["lose", "lose", "regain", "regain", "blink", "stop", "stop", "reach", "reach", "rewire"]), to=rng.choice([0.0, 0.0, 0.3, 1.0, 4.0, 20.0]), s=rng.choice([None, 0, 1, 2]), m=rng.randrange(len(movers)),
                        t=rng.choice([rng.uniform(0, span), rng.uniform(0, span), dt * rng.randint(0, 20)]), depth=rng.choice([0, 0, 1, 3]), prio=rng.choice([0, 1, 2])))
    particular = [dict(m=rng.randrange(len(movers)), rate=rng.choice([dt / 3, 0.11, 2 * dt]), t=rng.uniform(0, 4)) for _ in range(rng.choice([0, 0, 0, 1]))]
    endless = bool(particular) or rng.random() < 0.5
    return dict(twins=rng.random() < 0.2, geo=geo, dt=dt, empty=rng.choice([1, 2, 3, 5]), movers=movers, sensors=sensors, ops=ops, particular=particular, until=rng.choice([span, 25.0, rng.uniform(5, 20)]) if endless else None,
                start=rng.choice([True, False]), debug=rng.random() < 0.3, later=[mover(False) for _ in range(rng.choice([0, 1, 2]))], gap=[rng.randrange(len(movers)) for _ in range(rng.choice([0, 0, 1, 2]))])


class Fly(UP.Task):
    w, k = None, 0

    def task(self, *, actor):
        w, queue = self.w, self.w.queue[self.k]
        while queue:
            m = queue.pop(0)
            if m["wait"]:
                yield UP.Wait(m["wait"])
            w.touch(self.k)
            if m["tele"]:
                actor.loc = w.place(m["tele"])
            pts = [w.place(p) for p in m["path"]]
            speed = m["speed"] * w.scale
            total, p = 0.0, actor.loc
            for q in pts:
                total, p = total + (q - p) / speed, q
            self.flying = True
            w.begin(self.k)
            actor.activate_location_state(state="loc", speed=speed, waypoints=pts, task=self)
            yield UP.Wait(total)
            self.halt(actor)

    def halt(self, actor):
        if self.flying:
            self.flying = False
            self.w.end(self.k)
            actor.deactivate_state(state="loc", task=self)

    def on_interrupt(self, *, actor, cause):
        self.halt(actor)
        return self.INTERRUPT.RESTART


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.geo = geo = plan["geo"]
        # one unit of the plan: a distance unit, or a tenth of a degree on the earth
        self.scale = 1.0 if geo["model"] == "flat" else 1852.0 * 6 / METERS[geo["du"]]
        UP.add_stage_variable("distance_units", geo["du"])
        UP.add_stage_variable("altitude_units", geo["au"])
        if geo["model"] != "flat":
            UP.add_stage_variable("stage_model", WGS84 if geo["model"] == "wgs" else Spherical)
        ctx.cover(geo["model"])
        self.mgr = UP.SteppedMotionManager(timestep=plan["dt"], max_empty_events=plan["empty"], debug=plan["debug"])
        UP.add_stage_variable("motion_manager", self.mgr)
        self.things, self.spec, self.queue, self.tasks = [], [], [], {}
        self.index = {}
        self.registered, self.sensors = set(), {}
        self.where, self.radius = {}, {}
        self.now_in, self.log = set(), []
        self.touched, self.lost, self.regained, self.touched_sensors = set(), set(), set(), set()
        self.told = set()
        self.running, self.next, self.quiet, self.own = False, None, 0, []
        self.react = {}
        env._hooks.append(self.instant)
        for k, s in enumerate(plan["sensors"]):
            x = (Picky if s["kind"] == "picky" else Plain)(self.place(s["at"]), s["r"] * self.scale)
            x.wide = x.reach
            if s["kind"] == "picky" and s["r"] > 1.5:
                x.reach = 0.0  # the checker decides, not the radius
            x.w, x.k = self, k
            self.react[k] = dict(s["react"]) if s["react"] else None
            if s["t"] is None:
                self.sensor(x, "later" if s["t"] else None)
            else:
                at(env, s["t"], lambda x=x: self.sensor(x, "late"))
        self.bring(plan["movers"])
        if plan["start"]:
            self.mgr.run()
            self.started()
        for o in plan["ops"]:
            at(env, o["t"], lambda o=o: self.op(o), o["depth"], o["prio"])
        for p in plan["particular"]:
            at(env, p["t"], lambda p=p: self.start_particular(p))

    def place(self, p):
        x, y, z, own = p
        g = self.geo
        high = z * self.scale * METERS[g["du"]] / METERS[g["au"]]
        if g["model"] == "flat":
            return UP.CartesianLocation(x, y, high if own else z, use_altitude_units=own)
        la, lo = g["lat"] + x / 10, g["lon"] + y / 10
        if own:
            return UP.GeodeticLocation(math.radians(la), math.radians(lo), high, in_radians=True)
        return UP.GeodeticLocation(la, lo, high)

    def bring(self, movers):
        env = self.env
        for m in movers:
            k = len(self.things)
            loc, r = self.place(m["at"]), m["r"] * self.scale
            flat = self.geo["model"] == "flat"
            if m["kind"] == "plain":
                x = Plain(loc, r, self.place(m["at2"]))
            elif m["kind"] == "thing":
                x = (Thing if flat else GThing)(name="m" if self.plan["twins"] else f"m{k}", loc=loc, seen=m["seen"], reach=r)
            else:
                x = (Naked if flat else GNaked)(name="m" if self.plan["twins"] else f"m{k}", loc=loc, reach=r)
            x.w, x.k = self, 100 + k
            self.react[100 + k] = None
            self.things.append(x)
            self.spec.append(m)
            self.index[id(x)] = k
            self.queue.append([dict(q) for q in m["moves"]])
            if m["sense"]:
                self.sensor(x, None)
            if m["reg"] is not None:
                at(env, env.now + m["reg"], lambda k=k: self.register(k))
            if m["kind"] != "plain":
                at(env, env.now + m["t"], lambda k=k: self.launch(k))

    def launch(self, k):
        if self.spec[k]["grow"]:
            class Grow(UP.Task):
                def task(self, *, actor):
                    actor.activate_linear_state(state="reach", rate=g, task=self)
                    yield UP.Wait(2.0)
                    actor.deactivate_state(state="reach", task=self)
            g = self.spec[k]["grow"] * self.scale
            Grow().run(actor=self.things[k])
        t = Fly()
        t.w, t.k, t.flying = self, k, False
        self.tasks[k] = t.run(actor=self.things[k])

    def started(self):
        if not self.running:
            self.running, self.next, self.quiet = True, self.env.now + self.plan["dt"], 0

    def sensor(self, x, late):
        self.sensors[x.k] = x
        self.touched_sensors.add(x.k)
        if late:
            self.ctx.fault("late-sensor")
        self.radius[x.k] = "reach"
        self.mgr.add_sensor(x, radius_attr_name="reach", location_attr_name="loc")

    def register(self, k):
        self.touch(k)
        self.registered.add(k)
        self.ctx.fault("register")
        self.where[k] = "loc"
        self.mgr.add_detectable(self.things[k], "loc")

    def begin(self, k):
        self.touch(k)
        self.registered.add(k)
        self.started()

    def end(self, k):
        self.touch(k)
        self.registered.discard(k)

    def touch(self, k):
        self.touched.add(k)

    def start_particular(self, p):
        self.ctx.fault("own-rate")
        self.own.append([self.env.now + p["rate"], p["rate"], p["m"]])
        self.mgr.run_particular(p["rate"], self.things[p["m"]])

    def op(self, o):
        k = o["m"]
        x = self.things[k]
        self.ctx.fault(o["what"])
        if o["what"] == "stop":
            self.stop(k)
        elif o["what"] == "reach":
            x = self.sensors.get(o["s"], x)
            if x.k < 100 or not self.spec[k]["grow"]:
                self.touched_sensors.add(x.k)
                x.reach = o["to"] * self.scale
        elif o["what"] == "rewire":
            if isinstance(x, Plain) and k in self.registered:
                self.touch(k)
                self.where[k] = "loc2"
                self.mgr.add_detectable(x, "loc2")
            x = self.sensors.get(o["s"])
            if isinstance(x, Plain):
                self.touched_sensors.add(x.k)
                self.radius[x.k] = "far"
                self.mgr.add_sensor(x, radius_attr_name="far", location_attr_name="loc")
        elif isinstance(x, (Thing, GThing)):
            if o["what"] in ("lose", "blink"):
                self.lose(k)
            if o["what"] in ("regain", "blink"):
                self.regain(k)

    def stop(self, k):
        p = self.tasks.get(k)
        if p is not None and p.is_alive and p is not self.env.active_process:
            self.touch(k)
            p.interrupt()

    def lose(self, k):
        self.lost.add(k)
        self.things[k].seen = False

    def regain(self, k):
        self.regained.add(k)
        self.things[k].seen = True

    def detectable(self, x):
        return x.seen if isinstance(x, (Thing, GThing)) else True

    def notified(self, s, x, entered):
        now, k = self.env.now, self.index.get(id(x))
        self.ctx.log("notify", round(now, 9), s, k, entered)
        self.log.append((now, s, k, entered))
        what = f"t={now}: sensor {s} told that {k} {'entered' if entered else 'left'}; log {self.log[-8:]}"
        self.ctx.check(k is not None and s in self.sensors, "unknown", what)
        self.ctx.check(((s, k) in self.now_in) != entered, "not-alternating", what)
        (self.now_in.add if entered else self.now_in.discard)((s, k))
        self.told.add((s, k))
        if entered:
            self.ctx.check(self.detectable(x), "undetectable-reported", what)
            self.ctx.check(s != 100 + k, "sees-itself", what)
            self.ctx.check(k in self.registered or k in self.touched, "unregistered-reported", what)
        r = self.react.get(s)
        if r and r["n"] > 0 and (r["on"] == "both" or (r["on"] == "enter") == entered):
            r["n"] -= 1
            self.ctx.fault("sensor-" + r["do"])
            others = [j for j, y in enumerate(self.things) if j != k and isinstance(y, (Thing, GThing))]
            if r["do"] == "lose" and isinstance(x, (Thing, GThing)):
                self.lose(k)
            elif r["do"] == "stop":
                self.stop(k)
            elif r["do"] == "lose-other":
                for j in others:
                    self.lose(j)
            elif r["do"] == "regain-other":
                for j in others:
                    self.regain(j)

    def visible(self, s, k):
        """True, False or None on the edge."""
        x, y = self.sensors[s], self.things[k]
        a, b, reach = x.loc, getattr(y, self.where.get(k, "loc")), getattr(x, self.radius[s])
        if isinstance(x, Picky):
            d = x.inside(b)
            return None if min(map(abs, d)) < 1e-9 else min(d) > 0
        a, b = xyz(self.geo, a), xyz(self.geo, b)
        d = math.dist(a, b) - reach
        if d == 0 and all(float(v).is_integer() for v in (*a, *b, reach)):
            self.ctx.cover("edge")
            return True  # no rounding here: at the range is in range
        edge = 1e-9 if self.geo["model"] == "flat" else 1e-6 * self.scale
        return None if abs(d) < edge else d < 0

    def instant(self):
        """The end of an instant: what was sampled has to be known, everything else unchanged."""
        env, ctx = self.env, self.ctx
        now = env.now
        full = self.running and now == self.next
        if self.running:
            ctx.check(full or now < self.next, "missed-sample", f"t={now}: no sampling at {self.next}")
        mine = set()
        for o in self.own:
            ctx.check(now <= o[0], "missed-sample", f"t={now}: no own sampling at {o[0]}")
            if now == o[0]:
                mine.add(o[2])
                o[0] = now + o[1]
        for k, y in enumerate(self.things):
            sampled = (full or k in mine) and k in self.registered
            for s in self.sensors:
                have = (s, k) in self.now_in
                what = lambda: f"t={now}: sensor {s} thing {k} ({self.spec[k]['kind']}): in view {have}; log {[x for x in self.log if x[1:3] == (s, k)]}; " \
                    f"sampled {sampled}, registered {k in self.registered}, touched {k in self.touched}"
                tied = k in self.touched or s in self.touched_sensors or (s >= 100 and s - 100 in self.touched)
                if k in self.lost and not self.detectable(y):
                    ctx.check(not have, "kept-undetectable", what)
                    continue
                if s == 100 + k:
                    ctx.check(not have, "sees-itself", what)
                    continue
                if tied:
                    continue
                if not self.detectable(y):
                    ctx.check(not have, "kept-undetectable", what)
                    ctx.check((s, k) not in self.told or k in self.lost, "undetectable-reported", what)
                elif sampled or (k in self.regained and k in self.registered):
                    if k in self.lost or k in self.regained and sampled:
                        continue
                    want = self.visible(s, k)
                    if want is not None:
                        ctx.check(want == have, "view", lambda: what() + f", should be {want}")
                        ctx.cover("seen" if want else "unseen")
                else:
                    ctx.check((s, k) not in self.told or k in self.lost, "out-of-turn", what)
        if full:
            self.next = now + self.plan["dt"]
            rest = [q for q in env._queue if q[0] > now]
            self.quiet = self.quiet + 1 if len(rest) <= 1 else 0
            if self.quiet >= self.plan["empty"] and len(rest) == 0:
                self.running = False
                ctx.cover("ran-dry")
            ctx.check(self.quiet <= self.plan["empty"] + 1, "never-stops", f"t={now}: still sampling after {self.quiet} quiet samples of {self.plan['empty']}")
        for x in (self.touched, self.lost, self.regained, self.touched_sensors, self.told):
            x.clear()


def run(plan, ctx):
    with ctx.context() as env:
        w = World(plan, ctx, env)
        ctx.drive(env, until=plan["until"] or math.inf)
        for k in plan.get("gap", []):
            # between two runs, with or without the sampling still going on
            if k < len(w.things) and isinstance(w.things[k], (Thing, GThing)):
                ctx.fault("lose-between-runs")
                w.lose(k)
                ctx.check(not any(j == k for _, j in w.now_in), "kept-undetectable", f"thing {k} after t={env.now}: {sorted(w.now_in)}")
        if plan["later"]:
            w.bring(plan["later"])
            ctx.fault("second-batch")
            ctx.drive(env, until=env.now + plan["until"] if plan["until"] else math.inf)
        if plan["until"] is None:
            ctx.check(not env._queue, "never-stops", "something is left")
        ctx.nontrivial = bool(w.log) and bool(ctx.faults)
