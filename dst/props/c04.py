"""C04: inflow, outflow and node capacities, closures."""
import math
from .. import scen
from ._lock import LockProp, fail


class C04(LockProp):
    id = "C04"
    opts = dict(p_cap=0.55, p_fcap=0.4, p_closed=0.08, n_ops=[0, 3, 6, 12], late_fcap=True, op_kinds=["cap_in", "cap_out", "close", "close", "fcap", "fcap", "veh", "speed"])
    want_probes = ["capped_entries", "capped_exits", "node_entries", "closed_in_steps", "closed_out_steps", "cap_in", "cap_out", "fcap", "late_fcap"]

    def make_opts(self, rng, engine):
        o = LockProp.make_opts(self, rng, engine)
        o["platoons"] = rng.choice([30, 80, 130])
        return o

    def hooks(self, s, case, ctx):
        scn = case["scn"]
        w = scn["world"]
        DN, DT = w["deltan"], w["deltan"] * w["reaction_time"]
        cin, cout, fc, lanes, nl, ends = {}, {}, {}, {}, {}, {}
        for l in scn["links"]:
            cap = scen.link_consts(w, l)[3]
            cin[l["name"]] = l["cap_in"] if l.get("cap_in") is not None else 2 * cap
            cout[l["name"]] = l["cap_out"] if l.get("cap_out") is not None else 2 * cap
            lanes[l["name"]] = l.get("lanes", 1)
            ends[l["name"]] = (l["a"], l["b"])
        for n in scn["nodes"]:
            if n.get("fcap") is not None:
                fc[n["name"]] = n["fcap"]
                nl[n["name"]] = n.get("flanes") or math.ceil(n["fcap"] / 0.8)
        mx = dict(i=dict(cin), o=dict(cout), n=dict(fc))
        cur = dict(i=cin, o=cout, n=fc)
        bucket = dict(i={k: 0.0 for k in cin}, o={k: 0.0 for k in cout}, n={k: 0.0 for k in fc})
        closed = dict(i={k: v == 0 for k, v in cin.items()}, o={k: v == 0 for k, v in cout.items()})
        prev = {}
        ops = list(scn["ops"])
        pos = [0]

        def hk(sim, obs):
            T = sim.T
            while pos[0] < len(ops) and ops[pos[0]][0] <= T:
                o = ops[pos[0]]
                pos[0] += 1
                c = {"cap_in": "i", "cap_out": "o", "fcap": "n"}.get(o[1])
                if c == "n":
                    if o[3] is None:
                        fc.pop(o[2], None)
                        continue
                    if o[2] not in fc and w.get("adjust"):
                        continue        # its lanes were determined from its links
                    if o[2] not in fc:
                        ctx.probe("late_fcap")
                        fc[o[2]] = 0
                        bucket["n"][o[2]] = 0.0
                        mx["n"].setdefault(o[2], 0)
                        nl.setdefault(o[2], max(1, math.ceil(o[3] / 0.8)))
                if c and o[2] in cur[c]:
                    cur[c][o[2]] = o[3]
                    mx[c][o[2]] = max(mx[c][o[2]], o[3])
                    if c != "n" and o[3] != 0:
                        closed[c][o[2]] = False
            cnt = dict(i={}, o={}, n={})
            for nm, (st, lk, x, vv, lane) in obs.veh.items():
                was = prev.get(nm)
                if st in ("end", "abort"):
                    if was == "done":
                        continue
                    ll = obs.last_link(nm)
                    now = ll
                    prev[nm] = "done"
                else:
                    now = lk
                    prev[nm] = lk
                if now is not None and now != was:
                    cnt["i"][now] = cnt["i"].get(now, 0) + DN
                    if was is not None:
                        cnt["o"][was] = cnt["o"].get(was, 0) + DN
                        n = ends[was][1]
                        cnt["n"][n] = cnt["n"].get(n, 0) + DN
            for c, what in (("i", "entered link"), ("o", "left link"), ("n", "crossed node")):
                for k in cur[c]:
                    m = cnt[c].get(k, 0)
                    if c != "n" and closed[c][k]:
                        ctx.probe("closed_in_steps" if c == "i" else "closed_out_steps")
                        if m:
                            fail("closed", "step %d: %s vehicles %s %s, which has been closed from the start" % (T, m, what, k))
                    allow = DN * (nl[k] if c == "n" else lanes[k]) + mx[c][k] * DT
                    b = bucket[c][k] = max(0.0, bucket[c][k] + m - cur[c][k] * DT)
                    if m and m > 0:
                        ctx.probe({"i": "capped_entries", "o": "capped_exits", "n": "node_entries"}[c])
                    if b > allow + 1e-6:
                        fail("capacity", "step %d: over some window %.3f vehicles more than the configured rate %s %s, the platoon allowance is %.3f" % (T, b, what, k, allow))
        return [hk]


PROP = C04()
