"""C02: order, spacing, forward motion, speed limit."""
from ._lock import LockProp, fail


class C02(LockProp):
    id = "C02"
    opts = dict(p_signal=0.3, n_ops=[0, 3, 6, 10], op_kinds=["speed", "speed", "cap_out", "close", "kappa", "phase", "veh"], umax_factor=1.25)
    want_probes = ["following", "transferred", "competing", "speed", "kappa", "arrived_behind_others"]

    def make_opts(self, rng, engine):
        o = LockProp.make_opts(self, rng, engine)
        o["lanes"] = rng.choice([[1], [1, 2], [2, 3, 4], [1, 1, 1, 2, 3]])
        o["platoons"] = rng.choice([20, 60, 110])
        return o

    def hooks(self, s, case, ctx):
        ent = {}          # vehicle -> (link, step of entry)
        prev = {}
        scn = case["scn"]
        L = {l["name"]: l for l in scn["links"]}
        kops = {o[2] for o in scn["ops"] if o[1] == "kappa"}

        def hk(sim, obs):
            W, T, DN, DT = sim.W, sim.T, sim.W.DELTAN, sim.W.DELTAT
            lanes = {}
            left = {}
            spd = {l.name: l.free_flow_speed if sim.engine == "py" else l.u for l in W.LINKS}
            for nm, (st, lk, x, vv, lane) in obs.veh.items():
                p = prev.get(nm)
                if p is not None and p[0] == "run" and (st != "run" or lk != p[1]):
                    left.setdefault(p[1], []).append(ent[nm][1])
                if st == "run":
                    if p is None or p[0] != "run" or p[1] != lk:
                        ent[nm] = (lk, T)
                        adv = None
                    else:
                        adv = x - p[2]
                    l = L[lk]
                    tol = 1e-6 * max(1.0, l["len"])
                    if not (-tol <= x <= l["len"] + tol):
                        fail("bounds", "step %d: vehicle %s is at %.4f of link %s, whose length is %s" % (T, nm, x, lk, l["len"]))
                    if adv is not None and adv < -tol:
                        fail("backwards", "step %d: vehicle %s moved back on link %s from %.4f to %.4f" % (T, nm, lk, p[2], x))
                    if adv is not None and adv > spd[lk] * DT + tol:
                        fail("too-fast", "step %d: vehicle %s advanced %.4f on link %s, free-flow allows %.4f" % (T, nm, adv, lk, spd[lk] * DT))
                    if not (0 <= lane < l.get("lanes", 1)):
                        fail("lane", "step %d: vehicle %s is in lane %s of link %s with %s lanes" % (T, nm, lane, lk, l.get("lanes", 1)))
                    lanes.setdefault((lk, lane), []).append((ent[nm][1], x, nm))
                    prev[nm] = (st, lk, x)
                else:
                    prev[nm] = (st, None, x)
            for (lk, lane), vs in lanes.items():
                l = L[lk]
                kappa = l["kpl"] * l.get("lanes", 1) if l.get("kpl") is not None else l.get("kappa", 0.2)
                gap = DN / kappa * l.get("lanes", 1)
                tol = 1e-6 * max(1.0, l["len"])
                vs.sort(key=lambda a: (a[0], -a[1]))
                for a, b in zip(vs, vs[1:]):
                    if b[1] > a[1] + tol:
                        fail("overtaking", "step %d: vehicle %s (entered link %s in step %d) is at %.3f, ahead of %s (entered in step %d) at %.3f in the same lane" % (T, b[2], lk, b[0], b[1], a[2], a[0], a[1]))
                    if lk not in kops and a[1] - b[1] < gap - tol:
                        fail("spacing", "step %d: vehicles %s and %s in one lane of link %s are %.4f apart, the jam spacing of a platoon is %.4f" % (T, a[2], b[2], lk, a[1] - b[1], gap))
                if len(vs) > 1:
                    ctx.probe("lane_pairs", len(vs) - 1)
            stay = {}
            for (lk, lane), vs in lanes.items():
                stay[lk] = min(stay.get(lk, 10 ** 9), min(v[0] for v in vs))
            for lk, es in left.items():
                if lk in stay and max(es) > stay[lk]:
                    fail("fifo", "step %d: a vehicle that entered link %s in step %d left it before one that entered in step %d" % (T, lk, max(es), stay[lk]))
        return [hk]


PROP = C02()
