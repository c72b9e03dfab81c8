"""C12: the compiled and the Python engine simulate the same traffic.

Both engines run the same scenario with randomness off (hard_deterministic_mode), in lockstep, with the same interventions.
The engines may legitimately differ in the order in which they visit vehicles, so the scheduler seam makes the Python engine
use the order of the compiled one (front to back along each link; waiting transfers by vehicle id). A run is compared up to the
first moment at which a decision hangs on less than the rounding error of a float: two routes of equal cost, or a vehicle that
stops less than a micrometre before the end of its link (the engines compare with and without tolerance there).
"""
import json
import numpy as np
from .. import finger, scen, sched
from ._lock import cpp_case, fail
from ._twin import TwinProp, build, call, tsize, ENDTABLES



class Taint:
    def __init__(self, P):
        self.P, self.step, self.why, self.A = P, None, None, None

    def look(self, t):
        if self.step is None:
            k = self.kind()
            if k:
                self.step, self.why = t, k

    def kind(self):
        P = self.P
        for l in P.LINKS:
            for v in l.vehicles:
                if 0 < l.length - v.x < 1e-6:
                    return "link_end"
        if not P.finalized:
            return None
        R = P.ROUTECHOICE
        A = R.adj_mat_time
        if A is self.A or not R.dist_record:
            return None
        self.A = A
        n = len(P.NODES)
        for i in range(n):
            js = [j for j in range(n) if A[i, j] > 0 and np.isfinite(A[i, j])]
            if len(js) < 2:
                continue
            for k in range(n):
                if k != i and np.isfinite(R.dist[i, k]):
                    c = sorted(A[i, j] + R.dist[j, k] for j in js)
                    if c[1] - c[0] < 1e-6 * max(1, c[0]):
                        return "route_tie"
        return None


def snap(W, done):
    d = {}
    for nm, v in W.VEHICLES.items():
        if nm in done:
            d[nm] = done[nm]
            continue
        st = str(v.state)
        if st == "run":
            d[nm] = [st, v.link.name, round(float(v.x), 7), round(float(v.v), 6), int(v.lane)]
        else:
            d[nm] = [st]
            if st == "end":
                d[nm] += [float(v.arrival_time), float(v.travel_time), round(float(v.distance_traveled), 6)]
            if st in ("end", "abort"):
                done[nm] = d[nm]
    return d


def lanes(a, b):
    """Lanes are labels: the engines may hand them out differently."""
    return {k: v[:4] for k, v in a.items()}, {k: v[:4] for k, v in b.items()}


class C12(TwinProp):
    id = "C12"
    quick_n, thorough_n = 2200, 120000
    rule = ("one evaluation is one seeded fully deterministic scenario run by both engines in lockstep with the same interventions; states, positions, speeds, signal phases and vehicle counts are compared after every "
            "step, routes with their times, curves, travel times, guidance and end-of-run tables at the end")
    want_probes = ["compared_to_end", "transferred", "arrived", "aborted", "signal", "multi_lane", "route_alternatives", "link_end", "queue_at_origin"]
    opts = dict(n_ops=[0, 2, 5], short=0)
    assumptions = ["scenarios of 2-13 nodes, up to ~90 platoons and 40-110 steps", "comparison within 1e-6; a run stops being compared at the first floating-point tie (counted)",
                   "the Python engine is given the vehicle order of the compiled engine through the scheduler seam"]

    def gen(self, rng, idx):
        opts = dict(self.opts)
        opts["n_ops"] = rng.choice([[0], [0, 0, 3], [2, 5], [6]])
        opts["platoons"] = rng.choice([20, 60, 110])
        scn = scen.gen_case(rng, opts, hard=True)
        scn["world"].update(rcp="homogeneous_DUO", duo_noise=0)
        # names in the order of creation: the Python engine sorts preferred links by name
        js = json.dumps(scn)
        for k, l in enumerate(scn["links"]):
            js = js.replace('"%s"' % l["name"], '"L%02d_%s"' % (k, l["name"]))
        scn = json.loads(js)
        cpp_case(scn)
        scen.fix_signal_ops(scn)
        return dict(scn=scn, engine="both", pace=rng.choice([1, 1, 1, 7, 1000]))

    def run(self, case, ctx):
        scn = case["scn"]
        P, C = build(ctx.ux, scn, "py"), build(ctx.ux, scn, "cpp")
        dem = [[(nm, finger.nm(v.orig), finger.nm(v.dest), int(round(float(v.departure_time)))) for nm, v in W.VEHICLES.items()] for W in (P, C)]
        if dem[0] != dem[1]:
            # rounding at the last platoon of a demand; the demand of either engine is decided by C15
            ctx.probe("demand_rounding")
            return
        sched.install(P, "queue")
        n = tsize(scn)
        ops = scn["ops"]
        ta = Taint(P)
        oi, pd, cd = 0, {}, {}
        tc = 0
        for t in range(n):
            new = []
            while oi < len(ops) and ops[oi][0] <= t:
                new.append(ops[oi])
                oi += 1
            if new and tc < t:
                call(C, "dur2", t - tc, 0, n)
                tc = t
            for o in new:
                scen.apply_op(P, o)
                scen.apply_op(C, o)
                ctx.fault(o[1])
            for nd in P.NODES:
                nd.incoming_vehicles.sort(key=lambda v: v.id)
            call(P, "dur2", 1, 0, n)
            ta.look(t)
            if ta.step is not None:
                break
            if t + 1 - tc >= case["pace"] or t + 1 == n:
                call(C, "dur2", t + 1 - tc, 0, n)
                tc = t + 1
                a, b = lanes(snap(P, pd), snap(C, cd))
                d = finger.diff(a, b, 1e-6)
                if d:
                    fail("vehicles", "after step %d (Python / compiled): %s" % (t, d))
                for x, y in zip(P.NODES, C.NODES):
                    if len(x.signal) > 1 and int(x.signal_phase) != int(y.signal_phase):
                        fail("signal", "after step %d node %s is in phase %s (Python) and %s (compiled)" % (t, x.name, x.signal_phase, y.signal_phase))
                    if len(x.signal) > 1:
                        ctx.probe("signal")
                for x, y in zip(P.LINKS, C.LINKS):
                    p, q = int(x.num_vehicles), int(y.num_vehicles)
                    if p != q:
                        fail("count", "after step %d link %s carries %s vehicles (Python) and %s (compiled)" % (t, x.name, p, q))
                    for back in (0, 4, -6):
                        at = (t - back + 0.5) * P.DELTAT
                        if at < 0:
                            continue
                        for f in ("arrival_count", "departure_count", "num_vehicles_t", "instant_travel_time"):
                            p, q = float(getattr(x, f)(at)), float(getattr(y, f)(at))
                            if abs(p - q) > 1e-6 * max(1, abs(p)):
                                fail("query", "after step %d %s(%s) of link %s is %s (Python) and %s (compiled)" % (t, f, at, x.name, p, q))
        ctx.runs += 2
        ctx.steps += P.T + tc
        ctx.simsec += (P.T + tc) * P.DELTAT
        if ta.step is not None:
            ctx.probe(ta.why)
            h = P.T
        else:
            ctx.probe("compared_to_end")
            self.final(ctx, P, C)
        for v in P.VEHICLES.values():
            if v.state in ("run", "end", "abort"):
                ctx.probe("generated")
            if v.state == "end":
                ctx.probe("arrived")
            if v.state == "abort":
                ctx.probe("aborted")
            if v.state == "wait":
                ctx.probe("queue_at_origin")
            if len(v.log_t_link) > 2 and not isinstance(v.log_t_link[2][1], str):
                ctx.probe("transferred")
        if any(l.number_of_lanes > 1 for l in P.LINKS):
            ctx.probe("multi_lane")
        if any(len(nd.outlinks) > 1 for nd in P.NODES):
            ctx.probe("route_alternatives")
        self.record(ctx, dict(v={k: [v.state, finger.nm(v.link), finger._f(v.x)] for k, v in P.VEHICLES.items()}, T=P.T))

    def final(self, ctx, P, C):
        rec = []
        for W in (P, C):
            d = dict(veh={}, link={}, tables={})
            for nm, v in W.VEHICLES.items():
                left = v.state not in ("home", "wait") or len(v.log_t_link) > 1
                d["veh"][nm] = dict(state=v.state, orig=finger.nm(v.orig), dest=finger.nm(v.dest), route=[[finger._f(t), finger.nm(l)] for t, l in v.log_t_link] if left else None,
                                    arr=finger._f(v.arrival_time) if v.state == "end" else None, tt=finger._f(v.travel_time) if v.state == "end" else None)
            for l in W.LINKS:
                d["link"][l.name] = dict(A=finger.seq(l.cum_arrival), D=finger.seq(l.cum_departure), tt=finger.seq(l.traveltime_actual), tti=finger.seq(l.traveltime_instant)[:W.T])
            rec.append(d)
        d = finger.diff(rec[0], rec[1], 1e-6)
        if d:
            fail("history", "at the end (Python / compiled): %s" % d)
        g = [finger.guidance(P, "py"), finger.guidance(C, "cpp")]
        n = len(P.NODES)
        # entries between a node and itself or unreachable nodes carry no meaning
        for i in range(n):
            for k in range(n):
                if i != k and np.isfinite(P.ROUTECHOICE.dist[i, k]):
                    x, y = g[0]["dist"][i][k], g[1]["dist"][i][k]
                    if abs(x - y) > 1e-6 * max(1, abs(x)):
                        fail("guidance", "the shortest travel time from %s to %s is %s (Python) and %s (compiled)" % (P.NODES[i].name, P.NODES[k].name, x, y))
        d = finger.diff(g[0]["pref"], g[1]["pref"], 1e-6)
        if d:
            fail("guidance", "link preferences at the end (Python / compiled): %s" % d)
        for t in ENDTABLES:
            a, b = finger.table(getattr(P.analyzer, t)()), finger.table(getattr(C.analyzer, t)())
            a["rows"].sort(key=str)
            b["rows"].sort(key=str)
            d = finger.diff(a, b, 1e-6)
            if d:
                fail("tables", "%s (Python / compiled): %s" % (t, d))


PROP = C12()
