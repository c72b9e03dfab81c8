"""Shared parts of the properties that compare complete executions with each other."""
import contextlib, io, random
from .. import finger, scen
from ..prop import Prop, Violation
from ..sim import SimRng
from ._lock import cpp_case, fail

ENDTABLES = ("basic_to_pandas", "od_to_pandas", "link_to_pandas", "vehicle_trip_to_pandas")


def tsize(scn):
    w = scn["world"]
    return int(w["tmax"] / (w["deltan"] * w["reaction_time"]))


def build(ux, scn, engine, rng=None, **over):
    W = scen.build_world(ux, scn, engine, **over)
    if rng is not None and engine == "py":
        W.rng = SimRng(rng["seed"], rng["bias"], rng["mode"])
    return W


def amount(m, frac, DT, t):
    """A time of m steps and a fraction, as a user would write it; the middle of a step where rounding makes the step it means debatable."""
    x = round((m + frac) * DT, 6)
    if int(x / DT) != m or int((x + t * DT) / DT) != m + t or (x + t * DT) / DT < m + t:
        x = (m + 0.5) * DT
    return x


def call(W, kind, k, frac, n):
    """One execution call meant to advance by k steps (k=None: to the end) of a world of n steps; checks the promise of the call."""
    DT = W.DELTAT
    t = W.T if W.finalized else 0
    if k is None:
        r = W.exec_simulation()
        want = n
    elif kind == "until":
        r = W.exec_simulation(until_t=amount(t + k - 1, frac, DT, 0))
        want = t + k
    elif kind == "dur2":
        r = W.exec_simulation(duration_t2=amount(k, frac, DT, t))
        want = t + k
    else:
        r = W.exec_simulation(duration_t=amount(k - 1, frac, DT, t))
        want = t + k
    want = min(want, n)
    how = "exec_simulation(%s) for %s steps from step %d of %d" % (kind, k, t, n)
    if W.T != want:
        fail("clock", "%s ended at step %s instead of %s" % (how, W.T, want))
    if abs(W.TIME - want * DT) > 1e-9:
        fail("clock", "%s ended at time %s instead of %s" % (how, W.TIME, want * DT))
    if bool(r) != (want == n) or r not in (0, 1):
        fail("return", "%s returned %r at step %d" % (how, r, want))
    if bool(W.check_simulation_ongoing()) != (want < n):
        fail("ongoing", "check_simulation_ongoing() is %r at step %d of %d" % (W.check_simulation_ongoing(), want, n))


def drive(W, scn, plan=None, pause=None, upto=None, step1=False):
    """Runs the world to its end (or up to a step), applying the scheduled interventions before their steps.

    plan   None: calls as long as possible; else a list of [kind, steps, frac] used cyclically
    pause  called between calls with the next step
    """
    n = tsize(scn)
    end = n if upto is None else min(n, upto)
    ops = scn.get("ops", [])
    i, p = 0, 0
    t = W.T if W.finalized else 0
    while i < len(ops) and ops[i][0] < t:
        i += 1
    while t < end:
        while i < len(ops) and ops[i][0] <= t:
            scen.apply_op(W, ops[i])
            i += 1
        if pause:
            pause(t)
        nxt = min(ops[i][0] if i < len(ops) else n, end)
        if step1:
            call(W, "dur2", 1, 0, n)
        elif plan is None:
            call(W, "dur2", None if nxt == n else nxt - t, 0, n)
        else:
            kind, k, frac = plan[p % len(plan)]
            p += 1
            k = min(k, nxt - t)
            call(W, kind, None if (nxt == n and k == nxt - t and frac > 0.6) else k, frac, n)
        t = W.T
    return W


def same(a, b, kind, what, tol=0.0):
    d = finger.diff(a, b, tol)
    if d:
        fail(kind, "%s: %s" % (what, d))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class TwinProp(Prop):
    ext = "plain"
    cpp_share = 0.3
    opts = {}
    real = ["uxsim/uxsim.py", "uxsim/analyzer.py", "uxsim/uxsim_cpp_wrapper.py", "uxsim/trafficpp/* (compiled from the current tree)", "uxsim/utils.py"]
    stub = ["random generator of the Python world (seeded, partly adversarial) in a part of the runs", "wall clock (simulated)"]
    assumptions = ["scenarios of 2-13 nodes, up to ~90 platoons and 40-110 steps", "histories are compared exactly (bit for bit)"]
    state_measure = "digest of the complete final record of each run"

    def make_opts(self, rng, engine):
        o = dict(short=0.1 if engine == "py" else 0)
        o.update(self.opts)
        return o

    def world_over(self, rng, engine):
        return {}

    def tweak(self, rng, scn, engine, case):
        pass

    def gen(self, rng, idx):
        engine = "cpp" if rng.random() < self.cpp_share else "py"
        scn = scen.gen_case(rng, self.make_opts(rng, engine), **self.world_over(rng, engine))
        if engine == "cpp":
            cpp_case(scn)
        scen.fix_signal_ops(scn)
        case = dict(scn=scn, engine=engine, rng=dict(seed=rng.randrange(10 ** 6), bias=rng.choice([0, 0.3, 0.9]), mode=rng.choice(["mix", "mix", "first", "last"])) if rng.random() < 0.5 else None)
        self.tweak(rng, scn, engine, case)
        return case

    def count(self, ctx, W, scn, engine, runs=1):
        ctx.runs += runs
        ctx.steps += W.T * runs
        ctx.simsec += W.T * W.DELTAT * runs
        ctx.probe("engine_" + engine)
        ctx.probe("generated", sum(1 for v in W.VEHICLES.values() if v.state in ("run", "end", "abort")))
        ctx.probe("arrived", sum(1 for v in W.VEHICLES.values() if v.state == "end"))
        for o in scn.get("ops", []):
            ctx.fault(o[1])
        for k, v in getattr(getattr(W, "rng", None), "fired", {}).items():
            ctx.fault("rng-" + k, v)

    def record(self, ctx, d):
        h = finger.digest(d)
        ctx.feed(h)
        ctx.states.add(h)
