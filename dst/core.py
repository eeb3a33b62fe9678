"""Deterministic simulator core.

One *run* is: a JSON plan (program + schedule + faults, all chosen by a seeded generator) executed
by the real upstage code on a SimPy environment the harness steps event by event.  Everything the
run depends on is in the plan and in PYTHONHASHSEED, both kept in the replay file.
"""
from __future__ import annotations

import hashlib
import heapq
import json
import math
import random
import signal
import traceback
import warnings
from collections import Counter
from contextlib import contextmanager

import simpy
from simpy.core import EmptySchedule

warnings.simplefilter("ignore")

import upstage_des.api as UP  # noqa: E402
from upstage_des.base import EnvironmentContext  # noqa: E402

INF = math.inf


class Violation(Exception):
    """The property is broken.  kind identifies the class of failure, msg describes it."""

    def __init__(self, kind, msg=""):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg


class Hang(Exception):
    """A single run used up its wall-clock allowance inside one step."""


class Stop(Exception):
    """Ends a run early (not a failure)."""


class SimEnv(simpy.Environment):
    """The environment the harness puts under the real code (class of the context's env).

    It counts and fingerprints every processed event, bounds the number of steps (so that a model
    that stops making progress is seen) and calls a hook each time the clock is about to move, i.e.
    at the end of every simulated instant.
    """

    _ctx = None
    _hooks = ()
    _step_hooks = ()
    _same = 0

    def step(self):
        ctx = self._ctx
        if ctx is None:
            return super().step()
        q = self._queue
        if not q:
            raise EmptySchedule()
        ctx.steps += 1
        if ctx.steps > ctx.max_steps:
            ctx.violate("no-progress", f"more than {ctx.max_steps} events processed, now={self.now}")
        t, _, _, ev = q[0]
        name = type(ev).__name__
        proc = getattr(ev, "_generator", None)
        if proc is not None:
            name += ":" + getattr(proc, "__name__", "?")
        ctx.note_event(t, name)
        super().step()
        if self._step_hooks:
            for h in self._step_hooks:
                h()
        if self._hooks and (not self._queue or self._queue[0][0] > self._now):
            for h in self._hooks:
                h()


class Run:
    """Everything observed about one run."""

    def __init__(self, plan, max_steps=200_000, keep_trace=False):
        self.plan = plan
        self.max_steps = max_steps
        self.steps = 0
        self.violations = []
        self.faults = Counter()
        self.covers = Counter()
        self.simtime = 0.0
        self.keep_trace = keep_trace
        self.trace = []
        self._h = hashlib.blake2b(digest_size=8)
        self._shape = hashlib.blake2b(digest_size=8)
        self.nontrivial = False

    # -- fingerprints
    def note_event(self, t, name):
        self._h.update(f"{t:.9g}|{name};".encode())
        self._shape.update((name + ";").encode())

    def log(self, *items):
        """Observable facts of the run; part of the trace and the fingerprint."""
        s = repr(items)
        self._h.update(s.encode())
        if self.keep_trace:
            self.trace.append(s)

    def digest(self):
        return self._h.hexdigest()

    def shape(self):
        return self._shape.hexdigest()

    # -- verdicts
    def violate(self, kind, msg=""):
        self.violations.append((kind, str(msg)[:2000]))
        raise Violation(kind, str(msg)[:2000])

    def check(self, cond, kind, msg=""):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def cover(self, key, n=1):
        self.covers[key] += n

    # -- environments
    @contextmanager
    def context(self, **kw):
        with EnvironmentContext(**kw) as env:
            env.__class__ = SimEnv
            env._ctx = self
            env._hooks = []
            env._step_hooks = []
            try:
                yield env
            finally:
                self.simtime += max(0.0, env.now - kw.get("initial_time", 0.0))
                env._ctx = None

    def drive(self, env, until=INF, slices=()):
        """Run to `until` (or until nothing is left), optionally cut into partial runs."""
        for s in slices:
            if s > env.now and s < until:
                env.run(until=s)
        if until == INF:
            while env._queue:
                env.step()
        else:
            env.run(until=until)


def at(env, t, fn, depth=0, prio=1, name="fault"):
    """Call fn at simulated time t, after `depth` same-instant rounds, with SimPy priority prio."""

    def hop(d):
        if d <= 0:
            fn()
            return
        ev = simpy.Event(env)
        ev._ok, ev._value = True, None
        ev.callbacks.append(lambda _e: hop(d - 1))
        env.schedule(ev, priority=prio, delay=0)

    ev = simpy.Event(env)
    ev._ok, ev._value = True, None
    ev.callbacks.append(lambda _e: hop(depth))
    # absolute time, free of the rounding of now + (t - now)
    heapq.heappush(env._queue, (t, prio, next(env._eid), ev))
    return ev


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- executing plans

def _alarm(_s, _f):
    raise Hang("wall-clock limit of one run")


def execute(mod, plan, keep_trace=False, wall=20.0):
    """Run one plan on the real code.  Returns the Run; its violations say what broke."""
    run = Run(plan, max_steps=getattr(mod, "MAX_STEPS", 200_000), keep_trace=keep_trace)
    # the global generator is fixed too: code that draws from it is repeatable here (C23 varies it)
    random.seed(json.dumps(plan, sort_keys=True))
    # processor time, so that a busy machine is no hang; real time only for what waits
    timers = ((signal.SIGPROF, signal.ITIMER_PROF, wall), (signal.SIGALRM, signal.ITIMER_REAL, 8 * wall))
    old = [signal.signal(s, _alarm) for s, _, _ in timers]
    for _, which, limit in timers:
        signal.setitimer(which, limit)
    try:
        mod.run(plan, run)
    except Stop:
        pass
    except Violation as v:
        if not run.violations:
            run.violations.append((v.kind, v.msg))
    except Hang:
        run.violations.insert(0, ("hang", f"no return within {wall}s of processor time"))
    except RecursionError as e:
        run.violations.append(("crash:RecursionError", str(e)))
    except Exception as e:  # noqa: BLE001 - every escape from the real code is a finding
        if not run.violations:
            run.violations.append((f"crash:{type(e).__name__}", crash_text(e)))
    finally:
        for (s, which, _), o in zip(timers, old):
            signal.setitimer(which, 0)
            signal.signal(s, o)
    return run


def crash_text(e):
    chain, seen = [], set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{f.filename.split('/')[-1]}:{f.name}" for f in reversed(tb[-4:]))
        chain.append(f"{type(e).__name__}: {str(e)[:300]} [{where}]")
        e = e.__cause__ or e.__context__
    return " || ".join(chain[:4])


def seed_rng(base, prop, i):
    return random.Random(f"{base}/{prop}/{i}")


# ---------------------------------------------------------------- minimising

def _paths(obj, keys, path=()):
    if isinstance(obj, dict):
        for k, v in obj.items():
            if isinstance(v, list) and k in keys:
                yield path + (k,)
            yield from _paths(v, keys, path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from _paths(v, keys, path + (i,))


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def minimise(mod, plan, kind, budget=400, wall=60.0):
    """Delta-debug the droppable lists of a plan, then simplify its numbers."""
    import time

    t0 = time.time()
    tries = 0

    def bad(p):
        nonlocal tries
        tries += 1
        try:
            r = execute(mod, p, wall=10.0)
        except Exception:
            return False
        return any(k == kind for k, _ in r.violations[:1])

    cur = json.loads(json.dumps(plan))
    keys = set(getattr(mod, "SHRINK", ("ops", "faults", "tasks", "steps")))
    changed = True
    while changed and tries < budget and time.time() - t0 < wall:
        changed = False
        for path in list(_paths(cur, keys)):
            try:
                lst = _get(cur, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and tries < budget and time.time() - t0 < wall:
                i = 0
                while i < len(lst) and tries < budget:
                    cand = json.loads(json.dumps(cur))
                    cl = _get(cand, path)
                    del cl[i : i + size]
                    if bad(cand):
                        cur = cand
                        lst = _get(cur, path)
                        changed = True
                    else:
                        i += size
                size //= 2
    return cur, tries
