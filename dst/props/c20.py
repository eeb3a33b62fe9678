"""C20: static sensors learn of every entry and exit of moving actors."""
import math

import upstage_des.api as UP
from upstage_des.geography import WGS84, Spherical, get_intersection_locations
from upstage_des.geography.intersections import IntersectionError
from upstage_des.motion.cartesian_model import cartesian_linear_intersection
from upstage_des.motion.geodetic_model import analytical_intersection, subdivide_intersection

from dst.core import Stop, at

ID = "C20"
RUNS = {"quick": 11000, "thorough": 400000}
SHRINK = ["movers", "moves", "path", "sensors", "ops"]
RULE = ("1-3 movers fly 1-4 generated multi-leg paths each (integer grids give tangents, vertices on the edge, zero-length "
        "legs; also free coordinates and great circles on a sphere) past 1-4 static sensors, some added in mid-flight, "
        "while movers are interrupted and go on, turn back or pause, also by the sensors themselves on entry or exit, "
        "are repositioned between moves, and lose or regain detectability at any time, also from inside a notification. "
        "An independent path model says at every critical and many random times whom each sensor has in view; every "
        "notification has to fall on an edge crossing (or a start, addition or loss), alternate, and never name an "
        "undetectable mover. Non-trivial: an entry and a fault on the same mover.")
REAL = ["upstage_des SensorMotionManager, cartesian and analytical great-circle intersection models, location and detectability states, tasks; simpy"]
STUB = []
ASSUME = ["visits shallower than 1e-6 of the scale (1e-4 on the sphere) may be reported or not",
          "a movement begun undetectable, or made undetectable, stays unknown to the manager until the next movement (documented)",
          "the approximate subdivision model may refuse very short legs and miss visits shorter than its sampling (documented)",
          "an actor that stops keeps its place in the sensors' views until it moves again or becomes undetectable"]


class Mover(UP.Actor):
    loc = UP.CartesianLocationChangingState(recording=True)
    seen = UP.DetectabilityState(default=True)


class GMover(UP.Actor):
    loc = UP.GeodeticLocationChangingState()
    seen = UP.DetectabilityState(default=True)


class ActorSensor(UP.Actor):
    spot = UP.State()
    reach = UP.State()

    def entity_entered_range(self, e):
        self.w.notified(self.k, e, True)

    def entity_exited_range(self, e):
        self.w.notified(self.k, e, False)


class PlainSensor:
    def __init__(self, spot, reach):
        self.spot, self.reach = spot, reach

    entity_entered_range = ActorSensor.entity_entered_range
    entity_exited_range = ActorSensor.entity_exited_range


def gen(rng, tier):
    space = rng.choice(["grid", "grid", "free", "free", "sphere"])
    if space == "sphere":
        la0, lo0, sp = rng.uniform(-60, 60), rng.choice([rng.uniform(-170, 170), 179.6, -179.7]), rng.choice([0.4, 2.0, 8.0])

        def pt():
            return [la0 + rng.uniform(-sp, sp), (lo0 + rng.uniform(-sp, sp) + 180) % 360 - 180, 0.0]
        scale, speeds = sp * 60, [60.0, 400.0, rng.uniform(50, 500)]
    elif space == "grid":
        def pt():
            return [float(rng.randint(-6, 6)), float(rng.randint(-6, 6)), float(rng.choice([0, 0, 0, 1]))]
        scale, speeds = 6.0, [1.0, 2.0, 0.5]
    else:
        def pt():
            return [rng.uniform(-9, 9), rng.uniform(-9, 9), rng.choice([0.0, rng.uniform(-2, 2)])]
        scale, speeds = 9.0, [1.0, rng.uniform(0.3, 20), 2.5]
    movers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        moves = []
        for _ in range(rng.randint(1, 4)):
            path = [pt() for _ in range(rng.choice([1, 1, 2, 3, 4]))]
            if rng.random() < 0.2:
                path.insert(rng.randrange(len(path)), "same")
            moves.append(dict(wait=rng.choice([0.0, 0.0, 1.0, rng.uniform(0, 3)]), path=path, tele=pt() if rng.random() < 0.12 else None, speed=rng.choice(speeds)))
        movers.append(dict(at=pt(), t=rng.choice([0.0, 0.0, 1.0, rng.uniform(0, 4)]), seen=rng.random() < 0.9, moves=moves))
    span = 6 * scale / speeds[0]
    sensors = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        react = None
        if rng.random() < 0.4:
            react = dict(on=rng.choice(["enter", "exit", "both"]), do=rng.choice(["resume", "back", "next", "pause", "lose"]), n=rng.randint(1, 3))
        r = rng.choice([1.0, 2.0, 3.0, 5.0]) if space == "grid" else rng.uniform(0.1, 0.8) * scale
        sensors.append(dict(at=pt(), r=r, t=None if rng.random() < 0.75 else rng.choice([rng.uniform(0, span), float(rng.randint(0, 12))]),
                            kind=rng.choice(["actor", "plain"]), react=react))
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        what = rng.choice(["lose", "lose", "regain", "blink", "stop", "stop", "stop"])
        ops.append(dict(what=what, m=rng.randrange(len(movers)), do=rng.choice(["resume", "back", "next", "pause"]), t=rng.choice([rng.uniform(0, span), float(rng.randint(0, 12)), float(rng.randint(0, 40)) / 2]),
                        depth=rng.choice([0, 0, 1, 3]), prio=rng.choice([0, 1, 2])))
    alt = rng.choice([0.0, 0.0, 1.0, 5.0]) if space == "sphere" else 0.0
    for x in sensors:
        x["alt"] = rng.choice([0.0, 0.0, alt, 2.0 * alt, 0.5]) if space == "sphere" else 0.0
        x["r"] = max(x["r"], 1.5 * abs(alt - x["alt"]))
    if space == "sphere" and rng.random() < 0.4:
        space = rng.choice(["subdiv", "subdiv", "wgs"])
        for x in sensors:
            x["r"] = max(x["r"], 30.0)
        for m in movers:
            for mv in m["moves"]:
                mv["path"] = [p for p in mv["path"] if p != "same"]
    for x in sensors:
        if alt != x["alt"] and rng.random() < 0.2:  # passes above, or below, its range
            x["r"] = abs(alt - x["alt"]) * rng.uniform(0.3, 0.98)
    units = [rng.choice(["nmi", "nmi", "km", "m", "mi"]), rng.choice(["nmi", "nmi", "ft", "m", "km"])]
    return dict(units=units, twins=rng.random() < 0.2, space=space, alt=alt, rad=rng.random() < 0.3, movers=movers, sensors=sensors, ops=ops, clock=rng.choice([0.0, 0.0, 1000.0]), debug=rng.random() < 0.3,
                samples=rng.randrange(1 << 30))


def unit(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def ecef(lat, lon, alt):
    """Earth-centred coordinates on WGS84, everything in metres."""
    la, lo = math.radians(lat), math.radians(lon)
    e2 = 0.00669437999014
    n = 6378137.0 / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return ((n + alt) * math.cos(la) * math.cos(lo), (n + alt) * math.cos(la) * math.sin(lo), (n * (1 - e2) + alt) * math.sin(la))


PER_NMI = {"nmi": 1.0, "km": 1.852, "m": 1852.0, "mi": 1.852 / 1.609344, "ft": 1852.0 / 0.3048}


class Space:
    """Everything here is in nautical miles; real locations, speeds and ranges in the stage's units."""

    def __init__(self, name, alt, rad, units):
        self.rad = rad
        self.in_dist, self.in_alt = (PER_NMI[u] for u in units) if name in ("sphere", "subdiv", "wgs") else (1.0, 1.0)
        self.sphere, self.alt, self.wgs = name in ("sphere", "subdiv", "wgs"), alt, name == "wgs"
        self.tol = 1e-4 if self.sphere else 1e-6
        self.R = Spherical.EARTH_RADIUS / 1852.0

    def vec(self, p):
        if self.wgs:
            return tuple(p[:2])
        return unit(p) if self.sphere else tuple(p)

    def dist(self, a, b):
        if not self.sphere:
            return math.dist(a, b)
        if self.wgs:
            return WGS84.distance(a, b, units="nmi")
        return self.R * 2 * math.asin(min(1.0, math.dist(a, b) / 2))

    def between(self, a, b, f):
        if not self.sphere:
            return tuple(x + (y - x) * f for x, y in zip(a, b))
        if self.wgs:
            d, bearing = WGS84.distance_and_bearing(a, b, units="nmi")
            return tuple(WGS84.point_from_bearing_dist(a, bearing, d * f, "nmi")) if d else a
        w = 2 * math.asin(min(1.0, math.dist(a, b) / 2))
        if w < 1e-15:
            return a
        p, q = math.sin((1 - f) * w) / math.sin(w), math.sin(f * w) / math.sin(w)
        return tuple(p * x + q * y for x, y in zip(a, b))

    def location(self, v, alt=None):
        if not self.sphere:
            return UP.CartesianLocation(*v)
        high = (self.alt if alt is None else alt) * self.in_alt
        if self.wgs:
            return UP.GeodeticLocation(v[0], v[1], high)
        la, lo = math.atan2(v[2], math.hypot(v[0], v[1])), math.atan2(v[1], v[0])
        if self.rad:
            return UP.GeodeticLocation(la, lo, high, in_radians=True)
        return UP.GeodeticLocation(math.degrees(la), math.degrees(lo), high)

    def of(self, loc):
        if self.wgs:
            return loc.latlon()
        return unit(loc.latlon()) if self.sphere else (loc.x, loc.y, loc.z)


class Move:
    def __init__(self, sp, t0, pts, speed, seen):
        self.sp, self.t0, self.pts, self.alive, self.t1 = sp, t0, pts, seen, None
        self.cum = [0.0]
        for a, b in zip(pts, pts[1:]):
            self.cum.append(self.cum[-1] + sp.dist(a, b) / speed)
        self.total = self.cum[-1]

    def leg(self, e):
        for i in range(len(self.pts) - 2):
            if e < self.cum[i + 1]:
                return i
        return len(self.pts) - 2

    def at(self, t):
        e = min(max(t - self.t0, 0.0), self.total)
        i = self.leg(e)
        d = self.cum[i + 1] - self.cum[i]
        return self.sp.between(self.pts[i], self.pts[i + 1], (e - self.cum[i]) / d if d else 1.0)


class Fly(UP.Task):
    w, k = None, 0

    def task(self, *, actor):
        w, k = self.w, self.k
        queue = w.queue[k]
        while queue:
            m = queue[0]
            if m["wait"]:
                wait, m["wait"] = m["wait"], 0.0
                yield UP.Wait(wait)
            queue.pop(0)
            if m["tele"]:
                w.pos[k] = w.sp.vec(m["tele"])
                actor.loc = w.sp.location(w.pos[k])
            pts = [w.pos[k]]
            for p in m["path"]:
                pts.append(pts[-1] if p == "same" else w.sp.vec(p) if isinstance(p, list) else p)
            mv = w.begin(k, pts, m["speed"])
            mv.speed = m["speed"]
            actor.activate_location_state(state="loc", speed=m["speed"] * w.sp.in_dist, waypoints=[w.sp.location(p) for p in pts[1:]], task=self)
            yield UP.Wait(mv.total)
            actor.deactivate_all_states(task=self)
            w.finish(k, mv.t0 + mv.total)

    def on_interrupt(self, *, actor, cause):
        w, k = self.w, self.k
        mv = w.moves[k][-1] if w.moves[k] else None
        if mv is not None and mv.t1 is None:
            actor.deactivate_all_states(task=self)
            w.finish(k, w.env.now)
            rest = mv.pts[mv.leg(mv.t1 - mv.t0) + 1:]
            if cause in ("resume", "pause"):
                w.queue[k].insert(0, dict(wait=0.7 if cause == "pause" else 0.0, path=rest, tele=None, speed=mv.speed))
            elif cause == "back":
                w.queue[k].insert(0, dict(wait=0.0, path=[mv.pts[0]], tele=None, speed=mv.speed))
        return self.INTERRUPT.RESTART


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.sp = sp = Space(plan["space"], plan["alt"], plan["rad"], plan["units"])
        scale = max(1.0, max((s["r"] for s in plan["sensors"]), default=1.0))
        self.tol = sp.tol * scale
        if sp.sphere:
            UP.add_stage_variable("stage_model", WGS84 if sp.wgs else Spherical)
            UP.add_stage_variable("distance_units", plan["units"][0])
            UP.add_stage_variable("altitude_units", plan["units"][1])
        model = {"sphere": analytical_intersection, "subdiv": subdivide_intersection, "wgs": subdivide_intersection}.get(plan["space"], cartesian_linear_intersection)
        if plan["space"] in ("subdiv", "wgs"):
            UP.add_stage_variable("intersection_model", get_intersection_locations)
            # sampled every 5 nmi, so shallow visits can be missed
            self.tol = max(0.1, *[18.0 / s["r"] for s in plan["sensors"]])
        self.mgr = UP.SensorMotionManager(model, debug=plan["debug"])
        UP.add_stage_variable("motion_manager", self.mgr)
        self.log, self.changes = [], []
        self.pos = [sp.vec(m["at"]) for m in plan["movers"]]
        self.moves = [[] for _ in plan["movers"]]
        self.lost = [[] for _ in plan["movers"]]
        self.lost_after = [[] for _ in plan["movers"]]
        self.queue = [[dict(x) for x in m["moves"]] for m in plan["movers"]]
        self.sensors, self.added = [], {}
        for k, s in enumerate(plan["sensors"]):
            where = sp.location(sp.vec(s["at"]), s["alt"])
            reach = s["r"] * sp.in_dist
            x = ActorSensor(name="s" if plan["twins"] else f"s{k}", spot=where, reach=reach) if s["kind"] == "actor" else PlainSensor(where, reach)
            x.w, x.k = self, k
            self.sensors.append(x)
        self.react = [dict(s["react"]) if s["react"] else None for s in plan["sensors"]]
        self.now_in = set()
        for k, s in enumerate(plan["sensors"]):
            if s["t"] is None:
                self.add(k)
            else:
                at(env, s["t"], lambda k=k: self.add(k))
        cls = GMover if sp.sphere else Mover
        self.actors = [cls(name="m" if plan["twins"] else f"m{k}", loc=sp.location(p), seen=m["seen"]) for k, (p, m) in enumerate(zip(self.pos, plan["movers"]))]
        self.index = {a: k for k, a in enumerate(self.actors)}
        self.procs = {}
        for k, m in enumerate(plan["movers"]):
            at(env, m["t"], lambda k=k: self.launch(k))
        for o in plan["ops"]:
            at(env, o["t"], lambda o=o: self.op(o), o["depth"], o["prio"])

    def launch(self, k):
        task = Fly()
        task.w, task.k = self, k
        self.procs[k] = task.run(actor=self.actors[k])

    def add(self, k):
        self.added[k] = self.env.now
        if self.env.now > self.plan["clock"]:
            self.ctx.fault("sensor-added")
        self.mgr.add_sensor(self.sensors[k], location_attr_name="spot", radius_attr_name="reach")

    def op(self, o):
        k, what = o["m"], o["what"]
        a = self.actors[k]
        self.ctx.fault(what)
        if what in ("lose", "blink"):
            self.lose(k)
        if what in ("regain", "blink"):
            a.seen = True
        if what == "stop":
            self.interrupt(k, o["do"])

    def lose(self, k):
        self.lost[k].append(self.env.now)
        self.lost_after[k].append(len(self.moves[k]))
        if self.moves[k] and self.moves[k][-1].t1 is None:
            mv = self.moves[k][-1]
            if mv.alive is True:
                mv.alive = self.env.now
        self.actors[k].seen = False

    def interrupt(self, k, cause):
        p = self.procs.get(k)
        if p is not None and p.is_alive and p is not self.env.active_process:
            p.interrupt(cause=cause)

    # -- what happens, as it happens
    def begin(self, k, pts, speed):
        mv = Move(self.sp, self.env.now, pts, speed, bool(self.actors[k].seen))
        self.moves[k].append(mv)
        return mv

    def finish(self, k, t):
        mv = self.moves[k][-1]
        mv.t1 = self.env.now
        self.pos[k] = mv.at(t)
        got = self.sp.of(self.actors[k].loc)
        self.ctx.check(self.sp.dist(got, self.pos[k]) < self.tol * 100, "position", f"t={self.env.now} mover {k} at {got}, model {self.pos[k]}")
        self.pos[k] = got

    def notified(self, s, a, entered):
        k, now = self.index[a], self.env.now
        self.ctx.log("notify", round(now, 9), s, k, entered)
        self.log.append((now, s, k, entered))
        what = f"t={now}: sensor {s} told that mover {k} {'entered' if entered else 'left'}; log {self.log[-8:]}"
        self.ctx.check(s in self.added, "unknown-sensor", what)
        self.ctx.check(((s, k) in self.now_in) != entered, "not-alternating", what)
        (self.now_in.add if entered else self.now_in.discard)((s, k))
        if entered:
            self.ctx.check(a.seen, "undetectable-reported", what)
        a.loc
        r = self.react[s]
        if r and r["n"] > 0 and (r["on"] == "both" or (r["on"] == "enter") == entered):
            r["n"] -= 1
            self.ctx.fault("sensor-" + r["do"])
            if r["do"] == "lose":
                if a.seen:
                    self.lose(k)
            else:
                self.interrupt(k, r["do"])

    # -- judging afterwards
    def place(self, k, t):
        """Position at t, and whether it is in a movement the manager knows."""
        last = None
        for mv in self.moves[k]:
            if mv.t0 <= t:
                last = mv
        return last

    def view(self, s, k, t):
        """True/False, or None where rounding decides."""
        mv = self.place(k, t)
        if s not in self.added or self.added[s] > t or mv is None:
            return False
        n = self.moves[k].index(mv) + 1
        if mv.alive is False:
            return False  # begun undetectable
        if mv.alive is not True and mv.alive <= t:
            return False
        if any(x <= t and after == n for x, after in zip(self.lost[k], self.lost_after[k])):
            return False
        end = mv.t1 if mv.t1 is not None else math.inf
        if t >= end and abs(self.added[s] - end) < 1e-9:
            return None  # added in the instant of the stop: before or after it
        if t >= end and self.added[s] > end:
            return False
        if t >= end == mv.t0:
            return None  # begun and stopped in one instant: the sensors may or may not have been asked
        d = self.depth(s, mv, min(t, end))
        return None if abs(d) <= self.tol else d > 0

    def depth(self, s, mv, t):
        """How far inside the range of sensor s; the great-circle model turns the slant range into one along the ground."""
        p, a = self.plan["sensors"][s], self.sp.alt
        h = p["alt"] if self.sp.sphere else a
        if self.sp.wgs:
            lat, lon = mv.at(t)
            return p["r"] - math.dist(ecef(lat, lon, a * 1852), ecef(p["at"][0], p["at"][1], h * 1852)) / 1852
        if self.plan["space"] == "subdiv":
            u, R = mv.at(t), self.sp.R
            return p["r"] - math.dist([x * (R + a) for x in u], [x * (R + h) for x in self.sp.vec(p["at"])])
        a = abs(a - h)
        if p["r"] < a:
            return p["r"] - a
        return (math.sqrt(p["r"] ** 2 - a**2) if a else p["r"]) - self.sp.dist(self.sp.vec(p["at"]), mv.at(t))

    def judge(self, horizon):
        import random
        rng = random.Random(self.plan["samples"])
        ctx = self.ctx
        n_search = 24 if self.sp.wgs else 60
        for k in range(len(self.actors)):
            edges = sorted({self.plan["clock"], horizon} | {x for mv in self.moves[k] for x in (mv.t0, mv.t1) if x is not None} | set(self.lost[k]) | set(self.added.values()))
            for s in range(len(self.sensors)):
                mine = [x for x in self.log if x[1:3] == (s, k)]
                times = {rng.uniform(self.plan["clock"], horizon) for _ in range(6)}
                for a, b in zip(edges, edges[1:]):
                    times |= {a + (b - a) * f for f in (0.5, 0.001, 0.999)}
                for mv in self.moves[k]:
                    end = mv.t1 if mv.t1 is not None else horizon
                    for i in range(len(mv.pts) - 1):
                        a, b = mv.t0 + mv.cum[i], min(mv.t0 + mv.cum[i + 1], end)
                        if a >= b:
                            continue
                        n = 4
                        lo, hi = a, b
                        for _ in range(n_search):  # distance is unimodal along a leg (of less than half the globe)
                            x, y = lo + (hi - lo) / 3, hi - (hi - lo) / 3
                            if self.depth(s, mv, x) < self.depth(s, mv, y):
                                lo = x
                            else:
                                hi = y
                        c = (lo + hi) / 2
                        times.add(c)
                        times |= {a + (b - a) * j / n for j in range(1, n)}
                        if self.depth(s, mv, c) > self.tol:
                            for side, far in ((a, a), (b, b)):
                                lo, hi = c, far
                                if self.depth(s, mv, far) < 0:
                                    for _ in range(n_search):
                                        x = (lo + hi) / 2
                                        if self.depth(s, mv, x) > 0:
                                            lo = x
                                        else:
                                            hi = x
                                    for off in (1e-3, 1e-5):
                                        times |= {lo - off, lo + off}
                for t in sorted(times):
                    if not self.plan["clock"] <= t <= horizon or any(abs(t - e) < 1e-9 for e in edges):
                        continue
                    want = self.view(s, k, t)
                    have = sum(1 if x[3] else -1 for x in mine if x[0] <= t) > 0
                    if want is not None:
                        ctx.check(want == have, "view", lambda: f"sensor {s} {self.plan['sensors'][s]} mover {k} at t={t}: in view {have}, should be {want}; notifications {mine}; "
                                  f"moves {[(m.t0, m.t1, m.pts, m.alive) for m in self.moves[k]]} lost {self.lost[k]} added {self.added.get(s)}")
                for t, _, _, entered in mine:
                    mv = self.place(k, t)
                    near = any(abs(t - e) < 1e-9 for e in edges)
                    ok = near or (mv is not None and abs(self.depth(s, mv, t)) <= 10 * self.tol)
                    ctx.check(ok, "instant", lambda: f"sensor {s} {self.plan['sensors'][s]} mover {k}: notification at {t} entered={entered}, depth {self.depth(s, mv, t) if mv else None}")
                if mine:
                    ctx.cover("visits", len(mine))
                    if self.plan["ops"] or any(self.react):
                        ctx.nontrivial = True


def run(plan, ctx):
    with ctx.context(initial_time=plan["clock"]) as env:
        w = World(plan, ctx, env)
        try:
            ctx.drive(env)
        except IntersectionError:
            ctx.check(plan["space"] in ("subdiv", "wgs"), "refused", "an intersection could not be computed")
            ctx.cover("too-small-for-subdivision")
            raise Stop()
        w.judge(env.now + 1.0)
