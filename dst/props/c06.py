"""C06: routes."""
from .. import scen
from ._lock import LockProp, fail


class C06(LockProp):
    id = "C06"
    want_probes = ["paths_checked", "enforced_routes", "prefer_choices", "avoid_choices", "noncyclic_choices", "aborted", "prefer", "avoid", "reports_checked"]

    def make_opts(self, rng, engine):
        o = LockProp.make_opts(self, rng, engine)
        o["families"] = ["fork", "grid", "grid", "rand", "rand", "ring", "diverge", "cross"]
        o["p_unreach"] = rng.choice([0.03, 0.3])
        return o

    def world_over(self, rng, engine):
        return dict(no_cyclic=rng.random() < 0.4)

    def tweak(self, rng, scn, engine):
        dt = scn["world"]["deltan"] * scn["world"]["reaction_time"]
        steps = int(scn["world"]["tmax"] / dt)
        for _ in range(rng.choice([0, 3, 8])):
            v = scen.gen_vehicle(rng, scn, {})
            if v:
                scn["vehicles"].append(v)
        # preferences changed in mid-run, on vehicles given a name
        k = 0
        out = scen.adjacency(scn)
        for v in scn["vehicles"]:
            if not v.get("route") and rng.random() < 0.5:
                v["name"] = "pv%d" % k
                k += 1
                names = [l["name"] for l in scn["links"]]
                pick = rng.sample(names, min(len(names), rng.randint(1, 3)))
                kind = rng.choice(["prefer", "avoid"])
                if kind == "avoid" and (v.get("prefer") or any(ls and not ({l["name"] for l in ls} - set(pick)) for ls in out.values())):
                    continue
                if kind == "prefer" and v.get("avoid"):
                    continue
                scn["ops"].append([rng.randint(0, steps - 2), kind, v["name"], pick])
        scn["ops"].sort(key=lambda o: o[0])

    def start(self, s, case, ctx):
        self.cons = {}      # vehicle -> constraints in force, from the scenario alone
        scn = case["scn"]
        nv = len(scn["vehicles"])
        for nm, v in zip(list(s.W.VEHICLES)[-nv:] if nv else [], scn["vehicles"]):
            self.cons[nm] = dict(route=v.get("route"), prefer=set(v.get("prefer") or ()), avoid=set(v.get("avoid") or ()))
        self.nv0 = len(s.W.VEHICLES)

    def hooks(self, s, case, ctx):
        scn = case["scn"]
        L = {l["name"]: l for l in scn["links"]}
        out = {n: [l["name"] for l in ls] for n, ls in scen.adjacency(scn).items()}
        prev, visited, npath = {}, {}, {}
        ops = [o for o in scn["ops"]]
        pos = [0]
        noc = scn["world"].get("no_cyclic")
        chosen = {}      # vehicle waiting at a junction: (candidates when it chose)

        def permitted(c, cur, nm, orig):
            """Names of the links permitted to vehicle nm at node cur under its constraints."""
            cand = list(out[cur])
            if c and c["route"]:
                i = npath.get(nm, 0)
                return [c["route"][i]] if i < len(c["route"]) else []
            if c and set(cand) & c["prefer"]:
                cand = [x for x in cand if x in c["prefer"]]
            if c and set(cand) & c["avoid"]:
                cand = [x for x in cand if x not in c["avoid"]]
            if noc and not orig:
                c2 = [x for x in cand if L[x]["b"] not in visited.get(nm, ())]
                if c2:
                    if len(c2) < len(cand):
                        ctx.probe("noncyclic_choices")
                    cand = c2
            return cand

        def hk(sim, obs):
            T, W = sim.T, sim.W
            while pos[0] < len(ops) and ops[pos[0]][0] <= T:
                o = ops[pos[0]]
                pos[0] += 1
                if o[1] in ("prefer", "avoid") and o[2] in self.cons:
                    self.cons[o[2]][o[1]] = set(o[3])
                elif o[1] == "veh":
                    # explicitly added vehicles come after those known
                    names = list(W.VEHICLES)
                    nm = names[self.nv0]
                    self.nv0 += 1
                    v = o[2]
                    self.cons[nm] = dict(route=v.get("route"), prefer=set(v.get("prefer") or ()), avoid=set(v.get("avoid") or ()))
            for nm, (st, lk, x, vv, lane) in obs.veh.items():
                was = prev.get(nm)
                if was == "done":
                    continue
                if st in ("end", "abort"):
                    now = obs.last_link(nm)
                    prev[nm] = "done"
                else:
                    now = prev[nm] = lk
                if now is not None and now != was:
                    node = L[now]["a"]
                    orig = was is None
                    if orig:
                        if node != W.VEHICLES[nm].orig.name:
                            fail("origin", "step %d: vehicle %s from %s started on link %s, which leaves %s" % (T, nm, W.VEHICLES[nm].orig.name, now, node))
                    elif L[was]["b"] != node:
                        fail("jump", "step %d: vehicle %s went from link %s to %s, which are not connected" % (T, nm, was, now))
                    c = self.cons.get(nm)
                    # choices made before a change of preferences may still be carried out: judged by either
                    ok = chosen.pop(nm, None) or []
                    per = permitted(c, node, nm, orig)
                    if c and (set(out[node]) & c["prefer"]):
                        ctx.probe("prefer_choices")
                    if c and (set(out[node]) & c["avoid"]):
                        ctx.probe("avoid_choices")
                    if now not in per and now not in ok:
                        fail("permitted", "step %d: vehicle %s took link %s at %s, permitted were %s" % (T, nm, now, node, per))
                    npath[nm] = npath.get(nm, 0) + 1
                    visited.setdefault(nm, set()).add(node)
                if st == "run" and abs(x - L[lk]["len"]) < 1e-9:
                    chosen.setdefault(nm, permitted(self.cons.get(nm), L[lk]["b"], nm, False))
        return [hk]

    def finish(self, s, case, ctx):
        W, scn = s.W, case["scn"]
        DT = W.DELTAT
        L = {l["name"]: l for l in scn["links"]}
        out = scen.adjacency(scn)
        for nm, v in W.VEHICLES.items():
            log = list(v.log_t_link)
            path = [(t, l.name) for t, l in log if not isinstance(l, (str, int))]
            if not path:
                continue
            ctx.probe("paths_checked")
            st = v.state
            if v.orig.name != L[path[0][1]]["a"]:
                fail("origin", "vehicle %s starts on %s instead of at its origin %s" % (nm, path[0][1], v.orig.name))
            for (t0, a), (t1, b) in zip(path, path[1:]):
                if L[a]["b"] != L[b]["a"] or t1 < t0:
                    fail("path", "vehicle %s is recorded to go from %s (at %s) to %s (at %s)" % (nm, a, t0, b, t1))
            last = L[path[-1][1]]
            if st == "end" and last["b"] != v.dest.name:
                fail("destination", "vehicle %s is recorded as arrived at %s, its destination is %s" % (nm, last["b"], v.dest.name))
            if st == "abort" and (out[last["b"]] or last["b"] == v.dest.name):
                fail("abort", "vehicle %s was aborted at %s (destination %s), which is no dead end" % (nm, last["b"], v.dest.name))
            c = self.cons.get(nm)
            if c and c["route"]:
                ctx.probe("enforced_routes")
                got = [l for t, l in path]
                if got != c["route"][:len(got)] or (st == "end" and got != c["route"]):
                    fail("enforced", "vehicle %s travelled %s, its enforced route is %s" % (nm, got, c["route"]))
            r, ts = v.traveled_route()
            if [l.name for l in r.links] != [l for t, l in path]:
                fail("report", "traveled_route of vehicle %s reports %s, recorded are %s" % (nm, [l.name for l in r.links], [l for t, l in path]))
            if [float(t) for t in ts[:len(path)]] != [float(t) for t, l in path]:
                fail("report", "traveled_route of vehicle %s reports times %s, recorded are %s" % (nm, ts, [t for t, l in path]))
            if st == "end":
                if abs(v.travel_time - (v.arrival_time - v.departure_time) * DT) > 1e-6:
                    fail("report", "vehicle %s reports a travel time of %s, departure %s and arrival %s" % (nm, v.travel_time, v.departure_time, v.arrival_time))
                if s.model and s.model.vehs[nm].ended_t is not None and v.arrival_time != s.model.vehs[nm].ended_t:
                    fail("report", "vehicle %s reports arrival step %s, it arrived in step %s" % (nm, v.arrival_time, s.model.vehs[nm].ended_t))
            elif st in ("run", "wait", "home", "abort") and v.travel_time not in (-1, None):
                fail("report", "vehicle %s which is '%s' reports a travel time of %s" % (nm, st, v.travel_time))
            if s.model:
                mp = s.model.vehs[nm].path
                if [l for t, l in path] != [l for l, t in mp] or any(abs(a[0] - b[1]) > 1e-6 for a, b in zip(path, mp)):
                    fail("report", "the recorded path %s of vehicle %s differs from its movements %s" % (path, nm, [(t, l) for l, t in mp]))
            ctx.probe("reports_checked")


PROP = C06()
