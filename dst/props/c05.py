"""C05: signals."""
from .. import scen
from ._lock import LockProp, fail


class C05(LockProp):
    id = "C05"
    opts = dict(p_signal=0.9, families=["sig", "cross", "merge", "grid", "chain", "rand"], n_ops=[0, 2, 5, 9], op_kinds=["signal", "phase", "signal", "veh", "close"])
    want_probes = ["signalised_crossings", "phase_changes", "full_phases", "signal", "groups", "phase"]

    def tweak(self, rng, scn, engine):
        dt = scn["world"]["deltan"] * scn["world"]["reaction_time"]
        inl = {n["name"]: [l["name"] for l in scn["links"] if l["b"] == n["name"]] for n in scn["nodes"]}
        steps = int(scn["world"]["tmax"] / dt)
        for n in scn["nodes"]:
            if n.get("signal") and rng.random() < 0.3 and inl[n["name"]]:
                m = rng.choice([2, 3])
                sig = [round(dt * rng.choice([1, 2, 4, 7]), 6) for _ in range(m)]
                groups = [sorted(l for l in inl[n["name"]] if rng.random() < 0.6) for _ in range(m)]
                scn["ops"].append([rng.randint(1, max(1, steps - 2)), "groups", n["name"], sig, groups])
        scn["ops"].sort(key=lambda o: o[0])
        # phases of an override refer to the phases in force
        cur = {n["name"]: len(n["signal"]) for n in scn["nodes"] if n.get("signal")}
        out = []
        for o in scn["ops"]:
            if o[1] in ("signal", "groups"):
                cur[o[2]] = len(o[3])
            if o[1] == "phase" and o[3] >= cur.get(o[2], 1):
                continue
            out.append(o)
        scn["ops"] = out

    def hooks(self, s, case, ctx):
        scn = case["scn"]
        DT = scn["world"]["deltan"] * scn["world"]["reaction_time"]
        sg = {l["name"]: list(l.get("sg") or [0]) for l in scn["links"]}
        into = {l["name"]: l["b"] for l in scn["links"]}
        prog = {n["name"]: list(n["signal"]) for n in scn["nodes"] if n.get("signal")}
        run = {}                    # node -> [phase, steps shown, whole (shown from its beginning, undisturbed)]
        shown = self.shown = {n: [] for n in prog}
        ops, pos, prev = list(scn["ops"]), [0], {}

        def hk(sim, obs):
            T = sim.T
            touched = set()
            while pos[0] < len(ops) and ops[pos[0]][0] <= T:
                o = ops[pos[0]]
                pos[0] += 1
                if o[1] in ("signal", "groups"):
                    prog[o[2]] = list(o[3])
                    touched.add(o[2])
                    if o[1] == "groups":
                        for l in sg:
                            if into[l] == o[2]:
                                ph = [i for i, g in enumerate(o[4]) if l in g]
                                if ph:
                                    sg[l] = ph
                if o[1] == "phase":
                    touched.add(o[2])
            for n, p in prog.items():
                ph = obs.phase[n]
                if not (0 <= ph < len(p)):
                    fail("phase-range", "step %d: node %s displays phase %s of %d" % (T, n, ph, len(p)))
                shown[n].append(ph)
                r = run.get(n)
                if n in touched or r is None or len(p) == 1:
                    run[n] = [ph, 1, False]
                    continue
                if ph == r[0]:
                    r[1] += 1
                    if r[1] * DT > p[ph] + DT + 1e-6:
                        fail("phase-length", "step %d: node %s has displayed phase %d for %.3f s, its length is %s" % (T, n, ph, r[1] * DT, p[ph]))
                else:
                    ctx.probe("phase_changes")
                    if ph != (r[0] + 1) % len(p):
                        fail("phase-order", "step %d: node %s went from phase %d to %d of %d" % (T, n, r[0], ph, len(p)))
                    if r[2]:
                        ctx.probe("full_phases")
                        if abs(r[1] * DT - p[r[0]]) > DT + 1e-6:
                            fail("phase-length", "step %d: node %s displayed phase %d for %.3f s, its length is %s" % (T, n, r[0], r[1] * DT, p[r[0]]))
                    run[n] = [ph, 1, True]
            for nm, (st, lk, x, vv, lane) in obs.veh.items():
                was = prev.get(nm)
                if was == "done":
                    continue
                if st in ("end", "abort"):
                    now = obs.last_link(nm)
                    prev[nm] = "done"
                else:
                    now = prev[nm] = lk
                if was is not None and now is not None and now != was:
                    n = into[was]
                    if n in prog and len(prog[n]) > 1:
                        ctx.probe("signalised_crossings")
                        if obs.phase[n] not in sg[was]:
                            fail("red", "step %d: vehicle %s crossed %s from link %s during phase %d, its green phases are %s" % (T, nm, n, was, obs.phase[n], sg[was]))
        return [hk]

    def finish(self, s, case, ctx):
        for n, ph in self.shown.items():
            log = list(s.W.get_node(n).signal_log)
            if [int(x) for x in log] != ph:
                fail("phase-log", "the phase log of node %s differs from the phases displayed" % n)


PROP = C05()
