"""C19: route guidance is the shortest path under current conditions and tolls."""
import heapq, math
import numpy as np
from .. import scen
from ._lock import LockProp, fail

INF = math.inf


class C19(LockProp):
    id = "C19"
    opts = dict(p_toll=0.4, p_closed=0.1, families=["fork", "grid", "grid", "rand", "rand", "ring"], n_ops=[0, 3, 6, 10], op_kinds=["toll", "close", "close", "speed", "veh", "cap_in"], routes=False)
    want_probes = ["searches", "costs", "closed_links_in_search", "tolled_links_in_search", "blends", "guided_entries", "gradual", "own_blends", "late_vehicles"]
    assumptions = LockProp.assumptions + ["open parallel links between the same nodes are averaged, as documented in the code",
                                          "equal-cost alternatives may be resolved either way (1e-9 relative)"]

    def make_opts(self, rng, engine):
        return dict(LockProp.make_opts(self, rng, engine))

    def world_over(self, rng, engine):
        return dict(gradual=rng.random() < 0.3, rcp="homogeneous_DUO" if rng.random() < 0.75 else "heterogeneous_DUO")

    def hooks(self, s, case, ctx):
        scn = case["scn"]
        w = scn["world"]
        DT = w["deltan"] * w["reaction_time"]
        interval = max(1, int(w["duo_update_time"] / DT))
        weight0 = w["duo_update_weight"] * (DT / w["duo_update_time"] if w.get("gradual") else 1)
        toll = {l["name"]: l.get("toll") for l in scn["links"]}
        py = s.engine == "py"
        W = s.W
        nid = {n.name: n.id for n in W.NODES}
        names = [n.name for n in sorted(W.NODES, key=lambda n: n.id)]
        links = [(l.name, nid[l.start_node.name], nid[l.end_node.name], l.id) for l in W.LINKS]
        N = len(names)
        ops, pos = list(scn["ops"]), [0]
        st = dict(pref=None, D=None, nxt=None)
        recommended = {}         # (dest, link id): has guidance ever recommended it
        prev = {}
        # vehicles with own constraints are not bound to guidance
        nv = len(scn["vehicles"])
        initial = list(W.VEHICLES)
        bound = set(initial[:len(initial) - nv])
        free = lambda v: not (v.get("prefer") or v.get("avoid") or v.get("route") or v.get("mode"))
        bound |= {nm for nm, v in zip(initial[len(initial) - nv:], scn["vehicles"]) if free(v)} if nv else set()
        initial, late = set(initial), [0]
        hetero = py and w.get("rcp") == "heterogeneous_DUO" and not w.get("gradual")
        own, ever = {}, {}       # weights of each vehicle with heterogeneous guidance: the last, and since when positive
        first = [None]

        def read():
            if py:
                R = W.ROUTECHOICE
                return np.array(R.adj_mat_time, dtype=float), np.array(R.dist, dtype=float), np.array(R.next), np.array(R.route_pref, dtype=float)
            R = W._cpp_world
            return np.array(R.adj_mat_time, dtype=float), np.array(W.ROUTECHOICE.dist, dtype=float), np.array(W.ROUTECHOICE.next), np.array(R.route_preference, dtype=float)

        def old_row(nm, k):
            if hetero:
                return own.get(nm, np.zeros(len(links)))
            return st["pref"][k] if st["pref"] is not None else np.zeros(len(links))

        def hk(sim, obs):
            T = sim.T
            while pos[0] < len(ops) and ops[pos[0]][0] <= T:
                o = ops[pos[0]]
                pos[0] += 1
                if o[1] == "toll":
                    toll[o[2]] = o[3]
                elif o[1] == "veh":
                    new = [nm for nm in W.VEHICLES if nm not in initial]
                    if late[0] < len(new) and free(o[2]):
                        bound.add(new[late[0]])
                        ctx.probe("late_vehicles")
                    late[0] += 1
            # entries must follow earlier recommendations
            if st["pref"] is not None or first[0]:
                for nm, o in obs.veh.items():
                    was = prev.get(nm)
                    if was == "done" or nm not in bound:
                        continue
                    if o[0] in ("end", "abort"):
                        now = obs.last_link(nm)
                    else:
                        now = o[1]
                    if now is not None and now != was and T > 0:
                        l = W.get_link(now)
                        k = W.VEHICLES[nm].dest.id
                        row = ever.get(nm) if hetero else recommended.get(k)
                        outs = [x.id for x in l.start_node.outlinks.values()]
                        if w.get("no_cyclic"):
                            pass        # permitted links may exclude all recommended ones
                        elif (w.get("rcp") == "homogeneous_DUO" or hetero) and row and any(x in row for x in outs):
                            ctx.probe("guided_entries")
                            if l.id not in row:
                                # a vehicle that chose before guidance existed may still carry its choice out
                                since = min(row[x] for x in outs if x in row)
                                at, any_weight = (T, bool(old_row(nm, k)[outs].any())) if was is None else self.arrived.get(nm, (-1, False))
                                if at > since and any_weight:
                                    fail("unguided", "step %d: vehicle %s to %s took link %s, which guidance has never recommended for it" % (T, nm, W.VEHICLES[nm].dest.name, now))
                    if now != was:
                        self.arrived.pop(nm, None)
                    if o[0] == "run" and abs(o[2] - W.get_link(o[1]).length) < 1e-9:
                        self.arrive(nm, T, W, o, old_row)
                    prev[nm] = "done" if o[0] in ("end", "abort") else now
            else:
                for nm, o in obs.veh.items():
                    prev[nm] = "done" if o[0] in ("end", "abort") else o[1]
                    if o[0] == "run" and abs(o[2] - W.get_link(o[1]).length) < 1e-9:
                        self.arrive(nm, T, W, o, old_row)
            adj, dist, nxt, pref = read()
            due = T % interval == 0
            if due:
                ctx.probe("searches")
                first[0] = T if first[0] is None else first[0]
                lo = np.full((N, N), INF)
                hi = np.full((N, N), INF)
                cnt, closed = {}, set()
                for name, i, j, lid in links:
                    l = W.get_link(name)
                    tt = obs.link[name]["tti"]
                    tl = scen.toll_fn(toll[name])(T * DT) if toll[name] else 0.0
                    if tl:
                        ctx.probe("tolled_links_in_search")
                    a, b = tt + tl, tt * (1 + (0 if w.get("hard") else w["duo_noise"])) + tl
                    if l.capacity_in == 0:
                        ctx.probe("closed_links_in_search")
                        if (i, j) not in cnt:
                            closed.add((i, j))
                            cnt[i, j] = 0
                        else:
                            ctx.probe("closed_parallel_links")
                        continue
                    if (i, j) in closed:
                        closed.discard((i, j))
                        ctx.probe("closed_parallel_links")
                    c = cnt.get((i, j), 0)
                    lo[i, j] = a if not c else (lo[i, j] * c + a) / (c + 1)
                    hi[i, j] = b if not c else (hi[i, j] * c + b) / (c + 1)
                    cnt[(i, j)] = c + 1
                for (i, j) in cnt:
                    if (i, j) in closed:
                        lo[i, j] = hi[i, j] = INF
                    if not (lo[i, j] - 1e-6 <= adj[i, j] <= hi[i, j] + 1e-6) and not (lo[i, j] == INF and adj[i, j] == INF):
                        fail("cost", "step %d: the guidance cost from %s to %s is %.6f, current travel times and tolls give %.6f to %.6f" % (T, names[i], names[j], adj[i, j], lo[i, j], hi[i, j]))
                    ctx.probe("costs")
                g = [[] for _ in range(N)]
                for (i, j) in cnt:
                    if (i, j) not in closed:
                        g[i].append((j, float(adj[i, j])))
                for i in range(N):
                    d = dijkstra(g, i, N)
                    for j in range(N):
                        if i == j:
                            continue
                        x = dist[i, j]
                        if d[j] == INF:
                            if math.isfinite(x) and x >= 0:
                                fail("dist", "step %d: the distance from %s to %s is %.6f, no open path exists" % (T, names[i], names[j], x))
                            if any(b == nxt[i, j] for b, _ in g[i]) and not math.isinf(x):
                                fail("next", "step %d: guidance recommends %s from %s to the unreachable %s" % (T, names[int(nxt[i, j])], names[i], names[j]))
                            continue
                        if not abs(x - d[j]) <= 1e-7 * max(1, d[j]):
                            fail("dist", "step %d: the distance from %s to %s is %.6f, the shortest path costs %.6f" % (T, names[i], names[j], x, d[j]))
                for i in range(N):
                    for j in range(N):
                        if i == j or not math.isfinite(dist[i, j]):
                            continue
                        n = int(nxt[i, j])
                        c = dict(g[i]).get(n)
                        if c is None or abs(c + (dist[n, j] if n != j else 0) - dist[i, j]) > 1e-7 * max(1, dist[i, j]):
                            fail("next", "step %d: from %s to %s guidance recommends going to %s, which is on no shortest path" % (T, names[i], names[j], names[n] if 0 <= n < N else n))
                st["D"], st["nxt"] = dist, nxt
            elif st["D"] is not None:
                if not np.array_equal(dist, st["D"]) or not np.array_equal(nxt, st["nxt"]):
                    fail("refresh", "step %d: distances or recommendations changed between two guidance updates (every %d steps)" % (T, interval))
            if st["D"] is None:
                return
            old = st["pref"] if st["pref"] is not None else np.zeros_like(pref)
            if w.get("gradual"):
                ctx.probe("gradual")
            if due or w.get("gradual"):
                for k in range(N):
                    wt = 1.0 if not old[k].any() else weight0
                    for name, i, j, lid in links:
                        on = 1.0 if int(nxt[i, k]) == j and W.get_link(name).capacity_in != 0 else 0.0
                        e = (1 - wt) * old[k, lid] + wt * on
                        if on:
                            recommended.setdefault(k, {}).setdefault(lid, T)
                        if abs(pref[k, lid] - e) > 1e-9:
                            fail("blend", "step %d: the weight of link %s towards %s is %.9f, blending %.9f with the recommendation %d by %.4f gives %.9f" % (T, name, names[k], pref[k, lid], old[k, lid], on, wt, e))
                ctx.probe("blends")
            elif not np.array_equal(old, pref):
                fail("refresh", "step %d: guidance weights changed between two updates (every %d steps)" % (T, interval))
            st["pref"] = pref
            if hetero:
                self.own(sim, obs, ctx, W, own, due, nxt, links, weight0, names, T)
                for nm, p in own.items():
                    d = ever.setdefault(nm, {})
                    for x in np.flatnonzero(p):
                        d.setdefault(links[x][3], T)
        self.arrived = {}
        return [hk]


def _own(self, sim, obs, ctx, W, own, due, nxt, links, weight0, names, T):
    """With heterogeneous guidance every vehicle blends its own weights."""
    gone = set(own)
    for nm, o in obs.veh.items():
        v = W.VEHICLES[nm]
        if o[0] in ("end", "abort") or v.dest is None or v.mode != "single_trip":
            continue
        k = v.dest.id
        p = np.array([v.route_pref[lid] for _, _, _, lid in links], dtype=float)
        rec = np.array([1.0 if int(nxt[i, k]) == j and W.get_link(name).capacity_in != 0 else 0.0 for name, i, j, _ in links])
        if nm in own:
            old = own[nm]
            if due:
                wt = weight0 if old.any() else 1.0
                e = (1 - wt) * old + wt * rec
                ctx.probe("own_blends")
                if np.abs(p - e).max(initial=0) > 1e-9:
                    b = int(np.abs(p - e).argmax())
                    fail("blend", "step %d: vehicle %s gives link %s towards %s the weight %.9f; blending %.9f with the recommendation %d by %.4f gives %.9f" % (T, nm, links[b][0], names[k], p[b], old[b], rec[b], wt, e[b]))
            elif not np.array_equal(p, old):
                fail("refresh", "step %d: the guidance weights of vehicle %s changed between two updates" % (T, nm))
        gone.discard(nm)
        own[nm] = p
    for nm in gone:
        del own[nm]


C19.own = _own


def _arrive(self, nm, T, W, o, old_row):
    # a waiting vehicle chooses anew in every step
    outs = [x.id for x in W.get_link(o[1]).end_node.outlinks.values()]
    d = W.VEHICLES[nm].dest
    self.arrived[nm] = (T, bool(old_row(nm, d.id)[outs].any()) if d is not None else False)


C19.arrive = _arrive


def dijkstra(g, s, n):
    d = [INF] * n
    d[s] = 0.0
    h = [(0.0, s)]
    while h:
        x, i = heapq.heappop(h)
        if x > d[i]:
            continue
        for j, c in g[i]:
            if x + c < d[j]:
                d[j] = x + c
                heapq.heappush(h, (x + c, j))
    return d


PROP = C19()
