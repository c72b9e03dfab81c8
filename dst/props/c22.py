"""C22: user functions run exactly once per step, with their entity, on a consistent world."""
import random
from .. import finger, scen
from ._lock import fail
from ._twin import TwinProp, build, call, drive, same, tsize, quiet


class Boom(Exception):
    pass


LEVEL = {"link": 0, "node": 1, "vehicle": 2, "world": 3}


class Probe:
    """Attaches functions to a world and checks every call as it happens."""

    def __init__(self, W, case, effects=True, boom=None, n=0):
        self.W, self.case, self.n = W, case, n
        self.r = random.Random(case["attach"]["seed"])
        self.effects, self.boom = effects, boom
        self.step, self.calls, self.level = None, {}, -1
        self.total, self.raised = 0, None
        self.known, self.dead = {}, set()
        self.oi = 0
        self.att = {"link": [], "node": [], "vehicle": []}
        a = case["attach"]
        for kind, objs, share in (("link", W.LINKS, a["link"]), ("node", W.NODES, a["node"])):
            for o in objs:
                if self.r.random() < share:
                    self.put(kind, o)
        for v in W.VEHICLES.values():
            self.veh(v)
        W.user_function = self.world

    def veh(self, v):
        self.known[v.name] = v
        if self.r.random() < self.case["attach"]["vehicle"]:
            self.put("vehicle", v)

    def put(self, kind, o):
        o.user_function = lambda x, kind=kind, o=o: self.entity(kind, o, x)
        self.att[kind].append(o)

    def entity(self, kind, o, x):
        if x is not o:
            fail("argument", "the function of %s %s was called with %r" % (kind, o.name, x))
        W = self.W
        want = self.n
        if W.T != want:
            fail("step", "the function of %s %s was called in step %d with the world at step %s" % (kind, o.name, want, W.T))
        if abs(W.TIME - want * W.DELTAT) > 1e-9:
            fail("step", "the function of %s %s was called in step %d with the clock of the world at %s instead of %s" % (kind, o.name, want, W.TIME, want * W.DELTAT))
        if LEVEL[kind] < self.level:
            fail("order", "step %d: the function of %s %s was called after those of %s" % (want, kind, o.name, [k for k in LEVEL if LEVEL[k] == self.level][0]))
        self.level = LEVEL[kind]
        k = (kind, o.name)
        if k in self.calls:
            fail("twice", "step %d: the function of %s %s was called a second time" % (want, kind, o.name))
        self.calls[k] = 1
        self.total += 1
        self.look(kind, o)
        self.maybe_boom()

    def maybe_boom(self):
        if self.boom is not None and self.total == self.boom:
            self.raised = Boom("planned")
            raise self.raised

    def look(self, kind, o):
        """What functions that only look do."""
        W = self.W
        if kind == "link":
            o.num_vehicles, o.speed, o.density, o.flow, len(o.vehicles), o.average_speed
        elif kind == "node":
            len(o.incoming_vehicles), o.signal_phase, len(o.generation_queue)
        else:
            o.state, o.x, o.v, o.link, len(o.log_t)
        if self.total % 97 == 0:
            sum(l.num_vehicles for l in W.LINKS)
            [v.state for v in W.VEHICLES.values()]

    def world(self, W):
        if W is not self.W:
            fail("argument", "the function of the world was called with %r" % (W,))
        t = self.n
        if W.T != t:
            fail("step", "the function of the world was called in step %d with the world at step %s" % (t, W.T))
        if abs(W.TIME - t * W.DELTAT) > 1e-9:
            fail("step", "the function of the world was called in step %d at time %s instead of %s" % (t, W.TIME, t * W.DELTAT))
        for d in (-1.5, -1, -0.25, 0, 0.25, 0.75, 1, 1.25):
            if t + d >= 0 and W.on_time((t + d) * W.DELTAT) != (0 <= d < 1):
                fail("on_time", "step %d, timestep %s s: on_time(%s) is %s" % (t, W.DELTAT, (t + d) * W.DELTAT, W.on_time((t + d) * W.DELTAT)))
        for kind in ("link", "node"):
            for o in self.att[kind]:
                if (kind, o.name) not in self.calls:
                    fail("missed", "step %d: the function of %s %s was not called" % (t, kind, o.name))
        for o in self.att["vehicle"]:
            c = (("vehicle", o.name) in self.calls)
            fin = o.state in ("end", "abort")
            if not fin and not c:
                fail("missed", "step %d: the function of vehicle %s (state %s) was not called" % (t, o.name, o.state))
            if o.name in self.dead and c:
                fail("after-end", "step %d: the function of vehicle %s, which had finished, was called" % (t, o.name))
            if fin:
                self.dead.add(o.name)
        self.calls, self.level = {}, -1
        self.total += 1
        self.n += 1
        if self.effects:
            ops = self.case["scn"]["ops"]
            while self.oi < len(ops) and ops[self.oi][0] <= t + 1:
                scen.apply_op(W, ops[self.oi])
                self.oi += 1
            for nm, v in W.VEHICLES.items():
                if nm not in self.known:
                    self.veh(v)
        self.maybe_boom()


def consistent(W, where):
    """The bookkeeping of a world after a function raised."""
    on = {}
    for l in W.LINKS:
        for v in l.vehicles:
            if v.name in on:
                fail("inconsistent", "%s: vehicle %s is on links %s and %s" % (where, v.name, on[v.name], l.name))
            on[v.name] = l.name
    for nm, v in W.VEHICLES.items():
        if v.state == "run":
            if on.get(nm) != v.link.name:
                fail("inconsistent", "%s: running vehicle %s refers to link %s but is listed on %s" % (where, nm, v.link.name, on.get(nm)))
        elif nm in on:
            fail("inconsistent", "%s: vehicle %s in state %s is listed on link %s" % (where, nm, v.state, on[nm]))
        if (nm in W.VEHICLES_LIVING) != (v.state in ("home", "wait", "run")):
            fail("inconsistent", "%s: vehicle %s in state %s is %slisted as living" % (where, nm, v.state, "" if nm in W.VEHICLES_LIVING else "not "))
        if (nm in W.VEHICLES_RUNNING) != (v.state == "run"):
            fail("inconsistent", "%s: vehicle %s in state %s is %slisted as running" % (where, nm, v.state, "" if nm in W.VEHICLES_RUNNING else "not "))
    for l in W.LINKS:
        if len(l.vehicles) != (l.cum_arrival[-1] - l.cum_departure[-1]) / W.DELTAN if len(l.cum_arrival) else 0:
            fail("inconsistent", "%s: link %s holds %d platoons, its curves say %s - %s vehicles" % (where, l.name, len(l.vehicles), l.cum_arrival[-1], l.cum_departure[-1]))


class C22(TwinProp):
    id = "C22"
    quick_n, thorough_n = 900, 60000
    cpp_share = 0
    real = ["uxsim/uxsim.py", "uxsim/analyzer.py", "uxsim/utils.py"]
    rule = ("one evaluation is one seeded scenario with functions attached to a seeded part of its links, nodes and vehicles and to the world, executed in seeded pieces: every call is checked; the interventions made by the world's "
            "function must act exactly as the same ones between steps; looking must not change the record; a raising function at a seeded call is injected with another world interleaved")
    want_probes = ["calls_link", "calls_node", "calls_vehicle", "calls_world", "raised_link", "raised_node", "raised_vehicle", "raised_world", "continued_after_raise", "added_in_function"]
    assumptions = ["scenarios of 2-13 nodes, up to ~90 platoons and 40-110 steps", "attached functions exist in the Python engine only"]

    def make_opts(self, rng, engine):
        return dict(n_ops=[0, 3, 6], short=0.1, op_kinds=["cap_in", "cap_out", "speed", "kappa", "phase", "signal", "mp", "veh", "veh", "fcap"])

    def tweak(self, rng, scn, engine, case):
        scn["ops"] = [o for o in scn["ops"] if o[0] >= 1]
        case["attach"] = dict(seed=rng.randrange(10 ** 6), link=rng.choice([0, 0.5, 1]), node=rng.choice([0, 0.5, 1]), vehicle=rng.choice([0, 0.3, 1]))
        case["plan"] = [[rng.choice(["until", "dur", "dur2"]), rng.choice([1, 2, 5, 1000]), rng.random() * 0.9] for _ in range(rng.randint(1, 3))]
        case["boom"] = rng.random()
        case["other"] = rng.randrange(10 ** 6)

    def run(self, case, ctx):
        with quiet():
            self.go(case, ctx)

    def go(self, case, ctx):
        ux, scn = ctx.ux, case["scn"]
        n = tsize(scn)
        noops = dict(scn, ops=[])
        # reference: no functions, interventions between the steps
        R = build(ux, scn, "py", case["rng"])
        drive(R, scn, step1=True)
        ref = finger.world(R, "py")
        # functions that look, the world's function intervenes
        W = build(ux, scn, "py", case["rng"])
        p = Probe(W, case)
        drive(W, noops, plan=case["plan"])
        if p.n != n:
            fail("missed", "the function of the world was called in %d of %d steps" % (p.n, n))
        same(ref, finger.world(W, "py"), "effect", "the record with the interventions made between steps / by the function of the world (attached functions otherwise only look)")
        if any(o[1] == "veh" for o in scn["ops"]):
            ctx.probe("added_in_function")
        for k in p.att:
            ctx.probe("calls_" + k, len(p.att[k]))
        ctx.probe("calls_world", p.n)
        # a function raises
        at = 1 + int(case["boom"] * p.total)
        V = build(ux, scn, "py", case["rng"])
        q = Probe(V, case, boom=min(at, p.total))
        other = build(ux, noops, "py", case["rng"])
        drive(other, noops, upto=max(1, int(case["boom"] * n) // 2))
        try:
            drive(V, noops, plan=case["plan"])
        except Boom as e:
            if e is not q.raised:
                fail("exception", "another exception than the one raised reached the caller: %r" % (e,))
        else:
            fail("swallowed", "the exception raised by an attached function did not reach the caller")
        kind = next((k for k in ("vehicle", "node", "link") if any((k, o.name) in q.calls for o in q.att[k]) and q.level == LEVEL[k]), "world") if q.calls else "world"
        ctx.fault("raise-" + kind)
        ctx.probe("raised_" + kind)
        t = q.n - (1 if kind == "world" else 0)
        if V.T != t:
            fail("clock", "after the function of a %s raised in step %d the world is at step %s" % (kind, t, V.T))
        consistent(V, "after the function of a %s raised in step %d" % (kind, t))
        # the other world goes on as if nothing had happened
        drive(other, noops)
        if not scn["ops"]:
            same(ref, finger.world(other, "py"), "isolation", "a world run undisturbed / with another one failing meanwhile")
        # the failed world can go on
        for o in V.LINKS + V.NODES + list(V.VEHICLES.values()):
            o.user_function = None
        V.user_function = None
        r = V.exec_simulation()
        if V.T != n or not r:
            fail("stuck", "the world did not reach its end after a function had raised: step %s of %s" % (V.T, n))
        consistent(V, "at the end, after a function had raised in step %d" % t)
        ctx.probe("continued_after_raise")
        self.count(ctx, W, scn, "py", 4)
        self.record(ctx, ref)


PROP = C22()
