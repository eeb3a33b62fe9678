"""C06: a moving actor is where its speed and path put it, at every instant."""
import math

import upstage_des.api as UP
from upstage_des.utils import waypoint_time_and_dist
from upstage_des.geography import Spherical, WGS84
from upstage_des.states import ActiveStatus
from upstage_des.units import unit_convert

from dst.core import at

ID = "C06"
RUNS = {"quick": 56000, "thorough": 300000}
SHRINK = ["legs", "faults", "reads", "slices"]
RULE = ("1-2 movers in Cartesian space (with altitude units) or on a sphere or WGS84 earth travel 1-6 legs, some of "
        "zero length, at a constant speed from a clock between 0 and 1e6, with reads, records and remaining-waypoint "
        "queries at random times and exactly at leg ends; interrupts stop them (end/ignore/restart) and they resume "
        "later with the remaining waypoints at another speed. Positions compared with an independent path model. "
        "Non-trivial: a read or stop fell inside a leg.")
REAL = ["upstage_des location states, actor, task interrupts, geography models used by the states"]
STUB = []
ASSUME = ["tolerance 1e-6 of the path length; WGS84 along-track position judged by the earth model's own distances",
          "at the exact instant a waypoint is reached, reporting it as remaining or as reached are both right"]


class CMover(UP.Actor):
    loc = UP.CartesianLocationChangingState(recording=True)


class GMover(UP.Actor):
    loc = UP.GeodeticLocationChangingState(recording=True)


def gen(rng, tier):
    space = rng.choice(["cart", "cart", "sphere", "wgs"])
    movers = []
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(1, 6)
        if space == "cart":
            pts = [[rng.uniform(-50, 50), rng.uniform(-50, 50), rng.choice([0.0, rng.uniform(-5, 5)])] for _ in range(n + 1)]
            speed = rng.choice([1.0, 2.5, rng.uniform(0.1, 30)])
            scale = rng.choice([1.0] * 5 + [1e-6, 1e5])
            pts = [[x * scale for x in p] for p in pts]
            if rng.random() < 0.5:
                speed *= scale
        else:
            la, lo = rng.uniform(-70, 70), rng.uniform(-175, 175)
            if rng.random() < 0.2:
                lo = 179.5 * rng.choice([-1, 1])
            sp = rng.choice([0.05, 1.0, 6.0])
            pts = [[max(-85, min(85, la + rng.uniform(-sp, sp))), lo + rng.uniform(-sp, sp), rng.choice([0.0, rng.uniform(0, 30000), rng.uniform(-3000, 3000)])]
                   for _ in range(n + 1)]
            for p in pts:
                p[1] = (p[1] + 180) % 360 - 180
            speed = rng.choice([10.0, 60.0, rng.uniform(5, 500)])
        legs = [dict(p=p, rad=rng.random() < 0.15) for p in pts]
        for i in range(1, len(legs)):
            if rng.random() < 0.12:
                legs[i]["p"] = list(legs[i - 1]["p"])
        movers.append(dict(legs=legs, speed=speed, alt=rng.random() < 0.3, own=rng.choice(["keep", "keep", "clear", "swap"]),
                           resume=[dict(wait=rng.choice([0.0, 1.0, rng.uniform(0, 5)]), f=rng.choice([1.0, 1.0, 2.0, 0.5]))
                                   for _ in range(6)]))
    faults = [dict(k=rng.randrange(len(movers)), frac=rng.choice([rng.random() * 1.1, rng.random(), "leg", "leg"]), n=rng.randrange(6),
                   ans=rng.choice("EEIR"), depth=rng.randint(0, 2), prio=rng.choice([0, 1, 2])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    reads = [dict(k=rng.randrange(len(movers)), frac=rng.choice([rng.random() * 1.2, rng.random(), "leg"]), n=rng.randrange(6),
                  how=rng.choice(["get", "get", "remain", "record", "data"]), depth=rng.randint(0, 2))
             for _ in range(rng.randint(0, 16))]
    return dict(space=space, movers=movers, faults=faults, reads=reads, units=rng.choice(["nmi", "km", "m", "mi"]),
                t0=rng.choice([0.0, 0.0, rng.uniform(0, 1000), rng.uniform(1e4, 1e6), 86400.1]),
                slices=[rng.random() for _ in range(rng.randint(0, 3))])


# ------------------------------------------------------------- the path model

class Path:
    def __init__(self, w, start, way, speed, t0):
        self.w, self.start, self.way, self.speed, self.t0 = w, start, way, speed, t0
        self.pts = [start] + way
        self.d = [w.dist(a, b) for a, b in zip(self.pts, self.pts[1:])]
        self.total = sum(x / speed for x in self.d)

    def at(self, t):
        """(leg index, fraction) at time t, clipped to the path."""
        left = (t - self.t0) * self.speed
        for i, d in enumerate(self.d):
            if left <= d:
                return i, (left / d if d else 1.0)
            left -= d
        return len(self.d) - 1, 1.0

    def ends(self):
        s, out = 0.0, []
        for d in self.d:
            s += d / self.speed
            out.append(self.t0 + s)
        return out


class World:
    def __init__(self, plan, ctx, env):
        self.plan, self.ctx, self.env = plan, ctx, env
        self.geo = plan["space"] != "cart"
        self.model = {"sphere": Spherical, "wgs": WGS84}.get(plan["space"])
        self.paths, self.state, self.acts, self.procs, self.tasks = {}, {}, [], {}, {}
        self.fs = {}

    def mk(self, p, alt, rad=False):
        if self.geo and rad:
            return UP.GeodeticLocation(math.radians(p[0]), math.radians(p[1]), p[2], in_radians=True)
        if self.geo:
            return UP.GeodeticLocation(p[0], p[1], p[2])
        return UP.CartesianLocation(p[0], p[1], p[2], use_altitude_units=alt)

    def vec(self, p):
        """A location as numbers the model works with."""
        if self.geo:
            return (math.degrees(p.lat), math.degrees(p.lon), p.alt) if p.in_radians else (p.lat, p.lon, p.alt)
        z = unit_convert(p.z, "ft", self.plan["units"]) if p.use_altitude_units else p.z
        return (p.x, p.y, z)

    def dist(self, a, b):
        if not self.geo:
            return math.dist(a, b)
        if self.model is Spherical:
            return angle(a, b) * unit_convert(Spherical.EARTH_RADIUS, "m", self.plan["units"])
        return WGS84.distance((a[0], a[1]), (b[0], b[1]), self.plan["units"])

    def off(self, path, t, got):
        """How far `got` is from where the path says, and the allowance."""
        i, f = path.at(t)
        a, b = path.pts[i], path.pts[i + 1]
        tol = 1e-6 * max(1.0 if self.geo else 0.0, sum(path.d)) + path.speed * 8 * math.ulp(abs(t)) 
        if not self.geo:
            want = tuple(x + f * (y - x) for x, y in zip(a, b))
            return math.dist(want, got), tol, want
        tol = max(tol, unit_convert(0.05, "m", self.plan["units"])) + 1e-6 * path.speed
        if self.model is WGS84:  # its own two functions agree to this much
            tol += 1e-6 * path.d[i] + unit_convert(0.05, "m", self.plan["units"])
        alt = a[2] + f * (b[2] - a[2])
        if abs(alt - got[2]) > 1e-3 * max(1.0, abs(alt)) + 0.5:
            return 1e9, tol, (a, b, f, alt)
        if self.model is Spherical:
            want = slerp(a, b, f)
            return angle(want, got) * unit_convert(Spherical.EARTH_RADIUS, "m", self.plan["units"]), tol, want
        d = path.d[i]
        e1 = abs(self.dist(a, got) - f * d)
        e2 = abs(self.dist(got, b) - (1 - f) * d)
        return max(e1, e2), tol, (a, b, f)

    def check(self, k, how, t=None, got=None):
        t = self.env.now if t is None else t
        path = self.paths.get(k)
        if got is None:
            got = self.vec(self.acts[k].loc)
        if path is None:
            want = self.state[k]
            ok = all(abs(x - y) <= 1e-9 * max(1, abs(x)) for x, y in zip(got, want))
            self.ctx.check(ok, "moved-while-stopped", f"t={t}: {how} m{k} at {got}, stopped at {want}")
            return
        e, tol, want = self.off(path, t, got)
        self.ctx.check(e <= tol, "wrong-position", f"t={t}: {how} m{k} at {got}, {e:.3g} from where the path puts it {want}")

    def remaining(self, k):
        path = self.paths[k]
        wps = self.acts[k].get_remaining_waypoints("loc")
        got = [self.vec(p) for p in wps]
        t = self.env.now
        ends = path.ends()
        eps = 1e-9 * max(1.0, path.total) + 16 * math.ulp(abs(t))
        lo = [p for p, e in zip(path.way, ends) if e > t + eps]
        hi = [p for p, e in zip(path.way, ends) if e >= t - eps]
        ok = len(lo) <= len(got) <= len(hi) and got == path.way[len(path.way) - len(got):]
        self.ctx.check(ok, "wrong-remaining-waypoints", f"t={t}: m{k} reports {len(got)} of {len(path.way)} waypoints, ends {ends}")
        return wps


def unit(p):
    la, lo = math.radians(p[0]), math.radians(p[1])
    return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))


def angle(a, b):
    u, v = unit(a), unit(b)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v)))


def slerp(a, b, f):
    w = angle(a, b)
    if w < 1e-15:
        return a
    u, v = unit(a), unit(b)
    s, q = math.sin((1 - f) * w) / math.sin(w), math.sin(f * w) / math.sin(w)
    x = [s * i + q * j for i, j in zip(u, v)]
    return (math.degrees(math.atan2(x[2], math.hypot(x[0], x[1]))), math.degrees(math.atan2(x[1], x[0])), 0.0)


class Go(UP.Task):
    def task(self, *, actor):
        w, k, env = self.w, self.k, self.w.env
        spec = w.plan["movers"][k]
        while w.todo[k]:
            way = w.todo[k]
            start = w.vec(actor.loc)
            given = list(way)
            actor.activate_location_state(state="loc", speed=w.speed[k], waypoints=given, task=self)
            if spec["own"] == "clear":
                given.clear()
            elif spec["own"] == "swap":
                given.reverse()
            path = w.paths[k] = Path(w, start, [w.vec(p) for p in way], w.speed[k], env.now)
            dist = travel(w, actor.loc, way)
            wait, length = waypoint_time_and_dist(start=actor.loc, waypoints=way, speed=w.speed[k])
            w.ctx.check(abs(length - dist) <= 1e-9 * dist and abs(wait - dist / w.speed[k]) <= 1e-9 * wait, "planned-time",
                        lambda: f"{length} in {wait} planned, {dist} at {w.speed[k]}")
            yield UP.Wait(wait)
            w.check(k, "arriving")
            actor.deactivate_state(state="loc", task=self)
            w.paths.pop(k)
            w.todo[k] = []
            w.state[k] = w.vec(actor.loc)
            e = w.dist(w.state[k], w.vec(way[-1]))
            tol = 1e-5 * max(1.0, sum(path.d)) + path.speed * 16 * math.ulp(env.now) + (unit_convert(0.1, "m", w.plan["units"]) if w.geo else 0)
            w.ctx.check(e <= tol, "did-not-arrive", f"t={env.now}: m{k} is {e} short of its last waypoint")
            w.ctx.log(env.now, k, "arrived", w.state[k])
        return

    def on_interrupt(self, *, actor, cause):
        w, k = self.w, self.k
        w.ctx.log(w.env.now, k, "interrupt", cause)
        if k not in w.paths:
            return self.INTERRUPT.IGNORE
        if cause == "I":
            w.check(k, "interrupted")
            return self.INTERRUPT.IGNORE
        i, f = w.paths[k].at(w.env.now)
        if 0 < f < 1:
            w.ctx.nontrivial = True
            w.ctx.cover("stopped-inside-leg")
        w.todo[k] = list(w.remaining(k))
        w.pending.append(k)
        w.stop_at[k] = (w.paths.pop(k), w.env.now)
        if cause == "R":
            w.speed[k] *= 2.0
            w.settle(k, task=True)
            return self.INTERRUPT.RESTART
        return self.INTERRUPT.END


def travel(w, loc, way):
    """Total distance as a user would compute it."""
    total = 0.0
    for p in way:
        total += (p - loc)
        loc = p
    return total


def run(plan, ctx):
    with ctx.context(initial_time=plan["t0"]) as env:
        w = World(plan, ctx, env)
        UP.add_stage_variable("distance_units", plan["units"])
        UP.add_stage_variable("altitude_units", "ft")
        if w.geo:
            UP.add_stage_variable("stage_model", w.model)
            UP.add_stage_variable("intersection_model", UP.get_intersection_locations if hasattr(UP, "get_intersection_locations") else None)
        w.todo, w.speed, w.pending, w.stop_at = {}, {}, [], {}
        used = {k: 0 for k in range(len(plan["movers"]))}

        def settle(k, task=False):
            """The mover was stopped: it must be where the path had it, and stay there."""
            if task:
                # restart: judged from the very next position read, which is the new path's start
                path, t = w.stop_at.pop(k)
                w.pending.remove(k)
                w.after_restart = (path, t)
                return
            path, t = w.stop_at.pop(k)
            got = w.vec(w.acts[k].loc)
            e, tol, want = w.off(path, t, got)
            ctx.check(e <= tol, "stopped-elsewhere", f"t={t}: m{k} stopped at {got}, path says {want} ({e})")
            w.state[k] = got

        w.settle = settle

        def start(k):
            task = Go()
            task.w, task.k = w, k
            w.procs[k] = task.run(actor=w.acts[k])

        total = 0.0
        for k, m in enumerate(plan["movers"]):
            if not m["legs"]:
                m = dict(m, legs=[dict(p=[0.0, 0.0, 0.0], rad=False)])
            p0 = w.mk(m["legs"][0]["p"], m["alt"], m["legs"][0]["rad"])
            w.acts.append((GMover if w.geo else CMover)(name=f"m{k}", loc=p0))
            w.todo[k] = [w.mk(x["p"], m["alt"], x["rad"]) for x in m["legs"][1:]]
            w.speed[k] = m["speed"]
            w.state[k] = w.vec(p0)
            ref = Path(w, w.state[k], [w.vec(p) for p in w.todo[k]], m["speed"], plan["t0"])
            w.fs[k] = ref
            total = max(total, ref.total)
            start(k)

        def when(x):
            ref = w.fs[x["k"]]
            if x["frac"] == "leg":
                ends = ref.ends()
                return ends[x["n"] % len(ends)] if ends else plan["t0"]
            return plan["t0"] + x["frac"] * ref.total

        def hit(f):
            p = w.procs.get(f["k"])
            if p is not None and p.is_alive and f["k"] in w.paths:
                ctx.fault("interrupt-" + f["ans"])
                p.interrupt(cause=f["ans"])

        for f in plan["faults"]:
            at(env, when(f), lambda f=f: hit(f), f["depth"], f["prio"])

        def read(r):
            k = r["k"]
            a = w.acts[k]
            if k in w.paths:
                i, f = w.paths[k].at(env.now)
                if 0 < f < 1:
                    ctx.nontrivial = True
                    ctx.cover("read-inside-leg")
            if k in w.stop_at:
                return
            if r["how"] == "get":
                w.check(k, "read")
            elif r["how"] == "remain" and k in w.paths:
                w.remaining(k)
            elif r["how"] == "record":
                a.record_state("loc")
                w.check(k, "recorded")
            else:
                a.get_active_state_data("loc")

        for r in plan["reads"]:
            ctx.fault("observation")
            at(env, when(r), lambda r=r: read(r), r["depth"])

        def instant():
            for k in list(w.pending):
                w.pending.remove(k)
                settle(k)
                n = used[k]
                used[k] += 1
                rs = plan["movers"][k]["resume"][n % 6]
                w.speed[k] = plan["movers"][k]["speed"] * rs["f"]
                ctx.cover("resumed")
                at(env, env.now + rs["wait"], lambda k=k: start(k))

        env._hooks.append(instant)
        ctx.drive(env)
        env.run(until=env.now + 1.0)
        for k in range(len(w.acts)):
            ctx.check(not w.todo[k] and k not in w.paths, "never-arrived", f"m{k} still has {w.todo[k]}")
            w.check(k, "final")
            way = w.fs[k].way
            if way:
                e = w.dist(w.state[k], way[-1])
                tol = 3e-5 * max(1.0, sum(w.fs[k].d)) + w.fs[k].speed * 64 * math.ulp(env.now) + (unit_convert(0.5, "m", plan["units"]) if w.geo else 0)
                ctx.check(e <= tol, "did-not-complete-path", f"m{k} is {e} from its final waypoint")
            ts = [t for t, _ in w.acts[k]._state_histories["loc"]]
            ctx.check(ts == sorted(ts), "history-out-of-order", f"m{k}: {ts}")
            ctx.check(sum(1 for _, v in w.acts[k]._state_histories["loc"] if v is ActiveStatus.activating) ==
                      sum(1 for _, v in w.acts[k]._state_histories["loc"] if v is ActiveStatus.deactivating),
                      "activation-record", f"m{k}")
