"""The simulator for the single-threaded engine(s): steps a world, applies the schedule of interventions,
takes observations, drives the reference model and step invariants, and records a digest of everything.
"""
import hashlib, math
import numpy as np
from . import scen
from .refmodel import RefModel, KINDS


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


# ------------------------------------------------------------------ controlled randomness
class SimRng(np.random.Generator):
    """Replaces the world's generator: the simulator's scheduler for every random decision of the engine.

    With probability `bias` a decision is taken adversarially (always first, always last, starve one
    element, reversed order) instead of uniformly; only outcomes of positive probability are produced.
    """

    def __new__(cls, seed, bias, mode):
        return np.random.Generator.__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed, bias=0.5, mode="mix"):
        np.random.Generator.__init__(self, np.random.PCG64(seed))
        self.bias, self.mode = bias, mode
        self.aux = np.random.Generator(np.random.PCG64(seed + 1))
        self.fired = {}

    def __reduce__(self):
        return (_remake, (self.bit_generator.state, self.aux.bit_generator.state, self.bias, self.mode))

    def _m(self):
        if self.bias <= 0 or self.aux.random() >= self.bias:
            return None
        m = self.mode if self.mode != "mix" else ("first", "last", "rev")[self.aux.integers(3)]
        self.fired[m] = self.fired.get(m, 0) + 1
        return m

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if size is not None or isinstance(a, (int, np.integer)):
            return np.random.Generator.choice(self, a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        if len(a) == 0:
            return np.random.Generator.choice(self, a, size=size, replace=replace, p=p)
        idx = [i for i in range(len(a)) if p is None or p[i] > 0]
        m = self._m()
        if m is None or not idx:
            i = np.random.Generator.choice(self, len(a), p=p)
        elif m == "first":
            i = idx[0]
        else:
            i = idx[-1]
        return a[int(i)]

    def shuffle(self, x, axis=0):
        m = self._m()
        if m is None:
            np.random.Generator.shuffle(self, x)
        elif m == "rev":
            x[:] = list(x)[::-1]
        elif m == "last":
            x[:] = list(x)[1:] + list(x)[:1]


def _remake(st, aux, bias, mode):
    r = SimRng(0, bias, mode)
    r.bit_generator.state = st
    r.aux.bit_generator.state = aux
    return r


# ------------------------------------------------------------------ observations
class Obs:
    """Public state of the world after a step."""

    def __init__(self, sim):
        W = sim.W
        self.sim = sim
        self.W = W
        self.short = True
        self.veh, self.link, self.phase, self.siglog = {}, {}, {}, {}
        self._pre = sim.prefs
        for nm, v in W.VEHICLES.items():
            if nm in sim.done:
                self.veh[nm] = sim.done[nm]
                continue
            st = v.state
            l = v.link
            t = (st, l.name if l is not None else None, v.x, v.v, v.lane)
            self.veh[nm] = t
            if st in ("end", "abort"):
                sim.done[nm] = t
        for l in W.LINKS:
            if sim.engine == "py":
                A, D = l.cum_arrival, l.cum_departure
                o = dict(A=A[-1] if len(A) else 0, D=D[-1] if len(D) else 0, nA=len(A), nD=len(D), tti=l.traveltime_instant[-1])
            else:
                k = sim.T
                A, D, I = l.cum_arrival, l.cum_departure, l.traveltime_instant
                o = dict(A=A[k], D=D[k], nA=None, nD=None, tti=I[k])
            o.update(n=l.num_vehicles, k=l.density, v=l.speed, q=l.flow, nq=l.num_vehicles_queue)
            self.link[l.name] = o
        for n in W.NODES:
            self.phase[n.name] = n.signal_phase
            sl = n.signal_log
            self.siglog[n.name] = (len(sl), sl[-1] if len(sl) else None)

    def last_link(self, name):
        for t, l in reversed(self.W.VEHICLES[name].log_t_link):
            if not isinstance(l, (str, int)):
                return l.name
        return None

    def n_links(self, name):
        if self.sim.engine != "py":
            return None
        return sum(1 for t, l in self.W.VEHICLES[name].log_t_link if not isinstance(l, (str, int)))

    def entry_rank(self, name, link, start, lanes):
        lane = self.veh[name][4]
        return (lane - start) % lanes

    def choice(self, name):
        c = self.W.VEHICLES[name].route_next_link
        return c.name if c is not None else None

    def pre_pref(self, name, gen=False):
        r = self._pre.get((name, 0)) if gen else None
        if r is None:
            r = self._pre.get(name)
        if r is None:
            return None
        ids = self.sim.link_ids
        if isinstance(r, dict):
            return {l: float(r.get(i, 0.0)) for l, i in ids.items()}
        return {l: float(r[i]) for l, i in ids.items()}


class Sim:
    def __init__(self, ux, case, engine="py", world=None, model=True, rng=None, chunk=0):
        self.chunk, self.judged = chunk, None
        self.ux, self.case, self.engine = ux, case, engine
        self.W = world if world is not None else scen.build_world(ux, case, engine)
        if rng is not None and engine == "py":
            self.W.rng = SimRng(rng["seed"], rng["bias"], rng["mode"])
        self.model = RefModel(case, cpp=(engine == "cpp")) if model else None
        if self.model:
            self.model.tainted = False
        self.T = -1
        self.done = {}
        self.prefs = {}
        self.known = set()
        self.h = hashlib.sha256()
        self.states = set()
        self.opi = 0
        self.faults = {}
        self.sync_vehicles()
        self.hooks = []
        self.last_obs = None

    # vehicles created so far, in creation order
    def sync_vehicles(self):
        for nm, v in self.W.VEHICLES.items():
            if nm not in self.known:
                self.known.add(nm)
                if self.model:
                    lp = [l.name for l in (v.links_prefer or [])] if self.engine == "py" else None
                    self.model.add_vehicle(nm, v.orig.name, v.dest.name if v.dest is not None else None, v.departure_time,
                                           prefer=lp or (), avoid=[l.name for l in v.links_avoid] if self.engine == "py" else (),
                                           route=[l.name for l in v.specified_route] if v.specified_route else None,
                                           trip_abort=getattr(v, "trip_abort", 1), rcp=v.route_choice_principle)

    def op(self, o):
        r = scen.apply_op(self.W, o)
        self.faults[o[1]] = self.faults.get(o[1], 0) + 1
        self.sync_vehicles()
        if o[1] == "veh" and self.model and self.engine == "cpp":
            self.patch_cpp(r.name, o[2])
        if self.model and o[1] != "veh":
            self.model.apply_op(o)

    def patch_cpp(self, name, v):
        m = self.model.vehs[name]
        m.prefer = list(v.get("prefer") or [])
        m.avoid = list(v.get("avoid") or [])
        if v.get("route"):
            m.route = list(v["route"])
            m.prefer = list(v["route"])

    def record_prefs(self):
        """Snapshot of the guidance weights that the next step's choices are based on."""
        W, m = self.W, self.model
        p, rows = {}, {}
        w = self.case["world"]
        ids = self.link_ids = {l.name: l.id for l in W.LINKS}
        rp = None
        if self.engine == "cpp":
            rp = W._cpp_world.route_preference
            nid = {n.name: n.id for n in W.NODES}
            for v in m.living:
                if v.state != "home":
                    k = nid[v.dest] if v.dest in nid else None
                    if k is None or not rp:
                        p[v.name] = {}
                        continue
                    if k not in rows:
                        rows[k] = list(rp[k])
                    p[v.name] = rows[k]
        else:
            grad = w.get("gradual")
            for mv in m.living:
                if mv.state == "home":
                    continue
                v = W.VEHICLES[mv.name]
                both = [(mv.name, v.route_pref)]
                if grad:
                    # with gradual updates a vehicle refreshes its weights right before choosing the next link
                    both = [((mv.name, 0), v.route_pref)]
                    if v.route_choice_principle == "homogeneous_DUO" and v.dest is not None:
                        both.append((mv.name, W.ROUTECHOICE.route_pref[v.dest.id]))
                for key, row in both:
                    k = id(row) if not (grad and key == mv.name) else ("d", v.dest.id)
                    if k not in rows:
                        rows[k] = (row, dict(row) if isinstance(row, dict) else row.copy())
                    p[key] = rows[k][1]
        self.prefs = p

    def before(self, t):
        """Applies the interventions due before step t."""
        ops = self.case.get("ops", [])
        while self.opi < len(ops) and ops[self.opi][0] <= t:
            if ops[self.opi][0] == t:
                self.op(ops[self.opi])
            self.opi += 1
        self.sync_vehicles()
        if self.model and t > 0:
            self.record_prefs()

    def after(self, t):
        """Observes and judges the world after step t."""
        self.T = t
        obs = Obs(self)
        self.last_obs = obs
        k0 = len(self.model.viol) if self.model else 0
        if self.model:
            self.model.step(obs)
        for hk in self.hooks:
            hk(self, obs)
        self.h.update(repr([(k, v[0], v[1], round(float(v[2]), 9), round(float(v[3]), 9), v[4]) for k, v in obs.veh.items() if k not in self.done or True]).encode())
        self.states.add(hash(tuple((v[0], v[1], round(float(v[2]), 6)) for v in obs.veh.values())))
        if self.model and len(self.model.viol) > k0:
            for k, msg in self.model.viol[k0:]:
                if self.judged is None or k in self.judged:
                    raise Violation(k, msg)
            # a mismatch that belongs to another property: the model can no longer be trusted
            self.foreign = self.model.viol[k0]
            self.model = None

    def step(self):
        """Executes one step by a call of its own."""
        W = self.W
        t = self.T + 1
        self.before(t)
        W.exec_simulation(duration_t2=W.DELTAT)
        if W.T != t + 1:
            raise Violation("clock", "after executing step %d the world's step counter is %s" % (t, W.T))
        self.after(t)

    def steps(self, k):
        """Executes up to k steps, until the next intervention, by one call, observing from within the world's user function (Python engine)."""
        W = self.W
        t = self.T + 1
        n = int(self.case["world"]["tmax"] / W.DELTAT)
        self.before(t)
        ops = self.case.get("ops", [])
        end = min([t + k, n] + ([ops[self.opi][0]] if self.opi < len(ops) else []))
        end = max(end, t + 1)

        def look(W):
            if W.T != self.T + 1:
                raise Violation("clock", "the user function of the world is called in step %s after step %s" % (W.T, self.T))
            self.after(W.T)
            if self.model:
                self.record_prefs()
        W.user_function = look
        try:
            W.exec_simulation(duration_t2=(end - t) * W.DELTAT)
        finally:
            W.user_function = None
        if W.T != end or self.T != end - 1:
            raise Violation("clock", "after executing steps %d to %d by one call the step counter is %s, the last step seen is %s" % (t, end - 1, W.T, self.T))

    def run(self, kinds=None, max_steps=None):
        """Runs to the end; raises Violation for mismatches whose kind is in `kinds`."""
        self.judged = kinds
        n0 = self.T
        k = self.chunk if self.engine == "py" else 0
        while not (self.W.finalized and self.W.T >= self.W.TSIZE):
            if k:
                self.steps(k)
            else:
                self.step()
            if max_steps and self.T - n0 >= max_steps:
                break
        return self.T - n0

    def digest(self):
        return self.h.hexdigest()


def kinds_of(prop):
    return {k for k, ps in KINDS.items() if prop in ps}
