"""C21: merging."""
import math
from .. import scen
from ..sim import Sim
from ._lock import LockProp, fail, patch_vehicles


class C21(LockProp):
    id = "C21"
    quick_n, thorough_n = 1000, 40000
    opts = dict(families=["merge", "merge", "cross", "grid", "ring", "rand"], p_signal=0.15, n_ops=[0, 3, 6], op_kinds=["close", "cap_out", "cap_in", "speed", "veh", "fcap"])
    want_probes = ["competing", "several_outlinks", "contested_slots", "share_tests", "zero_priority_waits", "hard_contests", "mp"]
    assumptions = LockProp.assumptions + ["service in proportion to the priorities is judged over at least 60 contested single-lane slots of a run with unbiased randomness, at 6 standard deviations"]

    def make_opts(self, rng, engine):
        o = LockProp.make_opts(self, rng, engine)
        o["platoons"] = rng.choice([60, 110, 160])
        o["lanes"] = rng.choice([[1], [1, 2], [1, 2, 3]])
        return o

    def gen(self, rng, idx):
        if rng.random() < 0.2:
            return self.gen_share(rng)
        return LockProp.gen(self, rng, idx)

    def gen_share(self, rng):
        engine = "cpp" if rng.random() < 0.4 else "py"
        w = scen.gen_world(rng, deltan=rng.choice([1, 2, 5]), reaction_time=1, hard=rng.random() < 0.15, rcp="homogeneous_DUO", gradual=False, adjust=False)
        dt = w["deltan"]
        steps = rng.choice([200, 350])
        w["tmax"] = steps * dt
        k = rng.choice([2, 2, 3])
        nodes = [dict(name="o%d" % i, x=0, y=i) for i in range(k)] + [dict(name="m", x=10, y=0), dict(name="d", x=20, y=0)]
        u = rng.choice([10, 20])
        L = u * dt * 5
        links = [dict(name="i%d" % i, a="o%d" % i, b="m", len=L, u=u, lanes=1, mp=rng.choice([1, 2, 0.5, 3, 0]), kappa=0.2) for i in range(k)]
        links.append(dict(name="out", a="m", b="d", len=L, u=u * rng.choice([0.5, 1.0]), lanes=1, mp=1, kappa=0.2))
        rng.shuffle(nodes)
        rng.shuffle(links)
        dem = [dict(kind="od", o="o%d" % i, d="d", t0=0, t1=w["tmax"], flow=0.8) for i in range(k)]
        scn = dict(world=w, nodes=nodes, links=links, demands=dem, vehicles=[], ops=[], family="share")
        for _ in range(rng.choice([0, 0, 2])):
            scn["ops"].append([rng.randint(20, steps - 20), "mp", "i%d" % rng.randrange(k), rng.choice([1, 2, 0.5, 0])])
        scn["ops"].sort(key=lambda o: o[0])
        return dict(scn=scn, engine=engine, rng=dict(seed=rng.randrange(10 ** 6), bias=0, mode="mix"), share=True)

    def run(self, case, ctx):
        if not case.get("share"):
            return LockProp.run(self, case, ctx)
        scn = case["scn"]
        s = Sim(ctx.ux, scn, case["engine"], rng=case["rng"], chunk=case.get("chunk", 0))
        ctx.probe("engine_" + case["engine"])
        mp = {l["name"]: l["mp"] for l in scn["links"]}
        Ln = {l["name"]: l["len"] for l in scn["links"]}
        hard = scn["world"].get("hard")
        ops, pos = list(scn["ops"]), [0]
        prev, stat = {}, {}
        first = {}

        def hk(sim, obs):
            T = sim.T
            while pos[0] < len(ops) and ops[pos[0]][0] <= T:
                o = ops[pos[0]]
                pos[0] += 1
                if o[1] == "mp":
                    mp[o[2]] = o[3]
            moved = [nm for nm, o in obs.veh.items() if o[1] == "out" and prev.get(nm, (None, None))[1] not in ("out", None)]
            heads = {}
            for nm, p in prev.items():
                if p[0] == "run" and p[1] != "out" and abs(p[2] - Ln[p[1]]) < 1e-9:
                    if p[1] not in heads:
                        heads[p[1]] = nm
            if len(heads) > 1 and len(moved) == 1:
                v = moved[0]
                frm = prev[v][1]
                tot = sum(mp[l] for l in heads)
                ctx.probe("contested_slots")
                if heads.get(frm) != v:
                    fail("front", "step %d: vehicle %s merged from link %s although it was not at its front" % (T, v, frm))
                if tot > 0 and mp[frm] <= 0:
                    fail("zero-priority", "step %d: vehicle %s of zero-priority link %s went while %s competed with priorities %s" % (T, v, frm, sorted(heads), [mp[l] for l in sorted(heads)]))
                if hard:
                    ctx.probe("hard_contests")
                    if mp[frm] < max(mp[l] for l in heads):
                        fail("hard-priority", "step %d: vehicle %s of link %s (priority %s) went in deterministic mode although a higher priority competed: %s" % (T, v, frm, mp[frm], {l: mp[l] for l in heads}))
                else:
                    for l in heads:
                        p = mp[l] / tot if tot > 0 else 1 / len(heads)
                        if p == 0:
                            ctx.probe("zero_priority_waits")
                        a = stat.setdefault(l, [0, 0.0, 0.0])
                        a[0] += l == frm
                        a[1] += p
                        a[2] += p * (1 - p)
            prev.clear()
            prev.update({nm: (o[0], o[1], o[2]) for nm, o in obs.veh.items() if o[0] == "run"})
        s.hooks = [hk]
        s.run(self.kinds())
        for l, (n, e, var) in stat.items():
            if var > 15:
                ctx.probe("share_tests")
                z = (n - e) / math.sqrt(var)
                if abs(z) > 6:
                    fail("share", "link %s was served %d times in its contested slots, its share of the merge priorities gives %.1f (%.1f standard deviations)" % (l, n, e, z))
        ctx.take(s)

    def nontrivial(self, ctx):
        return ctx.probes.get("generated", 0) > 0


PROP = C21()
