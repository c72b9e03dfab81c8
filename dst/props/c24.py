"""C24: routes and route searches are valid, best and complete, for every network and moment."""
import heapq, math, random, warnings
import numpy as np
from .. import finger, scen
from ._lock import fail
from ._twin import TwinProp, build, drive, quiet, tsize

TOL = 1e-7
COSTS = ("default", "length", "hops", "hash", "flat")


def close(a, b):
    return a == b or abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def pseudo(name, salt, t=0):
    return random.Random("%s/%s/%s" % (name, salt, t)).uniform(0.5, 20)


class Net:
    """The network as the scenario states it, for brute-force searches."""

    def __init__(self, scn):
        self.nodes = [n["name"] for n in scn["nodes"]]
        self.links = {l["name"]: l for l in scn["links"]}
        self.out = {n: [] for n in self.nodes}
        for l in scn["links"]:
            self.out[l["a"]].append(l)

    def best(self, cost):
        """{start: {end: least cost over the links from start to end}}"""
        b = {n: {} for n in self.nodes}
        for l in self.links.values():
            c = cost(l["name"])
            d = b[l["a"]]
            d[l["b"]] = min(d.get(l["b"], math.inf), c)
        return b

    def all_costs(self, s, d, cost, cap=4000):
        """Costs of all simple node paths from s to d (None: too many of them)."""
        b = self.best(cost)
        out, seen = [], {s}

        def walk(n, c):
            if len(out) > cap:
                return
            if n == d:
                out.append(c)
                return
            for m, w in b[n].items():
                if m not in seen:
                    seen.add(m)
                    walk(m, c + w)
                    seen.discard(m)
        walk(s, 0)
        return None if len(out) > cap else sorted(out)

    def distances(self, cost):
        """Bellman-Ford distances {source: {node: cost}}; unreachable nodes are absent."""
        b = self.best(cost)
        D = {}
        for s in self.nodes:
            d = {s: 0}
            for _ in self.nodes:
                for n in list(d):
                    for m, w in b[n].items():
                        if d[n] + w < d.get(m, math.inf):
                            d[m] = d[n] + w
            D[s] = d
        return D

    def check(self, route, s, d, what, loopless=True):
        at, seen = s, {s}
        for x in route:
            if not isinstance(x, str) or x not in self.links:
                fail("route", "%s: %r is no link name" % (what, x))
            l = self.links[x]
            if l["a"] != at:
                fail("route", "%s: %s is not connected (%s does not start at %s)" % (what, route, x, at))
            at = l["b"]
            if loopless and at in seen:
                fail("route", "%s: %s visits %s twice" % (what, route, at))
            seen.add(at)
        if at != d:
            fail("route", "%s: %s ends at %s instead of %s" % (what, route, at, d))


class C24(TwinProp):
    id = "C24"
    quick_n, thorough_n = 1800, 60000
    case_limit = 120
    rule = ("one evaluation is one seeded scenario run on one engine with interventions and stopped at seeded moments, at which the route utilities are called with seeded arguments, cost functions and draws and compared with "
            "brute-force searches over the scenario and the recorded travel times, and run once more without the calls; distinct_nontrivial counts distinct digests of final records with vehicles in the network")
    want_probes = ["engine_py", "engine_cpp", "k_shortest", "k_on_t", "random_sets", "unreachable", "parallel", "several_routes", "distance", "instant", "instant_on_t", "timespace", "timespace_all",
                   "route_object", "not_consecutive", "traveled", "mid_run", "at_end", "same_node", "grid"]
    real = TwinProp.real + ["uxsim/Utilities/Utilities.py"]
    stub = TwinProp.stub + ["the global random generators (seeded)"]
    assumptions = ["networks of 2-13 nodes with at most 4000 simple paths between the chosen nodes; costs equal within 1e-7 count as equal"]
    opts = dict(families=["fork", "cross", "grid", "rand", "rand", "rand", "ring", "diverge", "merge"], p_unreach=0.3, p_signal=0.1, p_fcap=0.1, n_ops=[0, 0, 2, 4])

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        scn["world"]["log_interval"] = rng.choice([1, 1, 1, 3])
        scn["ops"] = [o for o in scn["ops"] if o[0] < n]
        if engine == "py" and rng.random() < 0.15:
            scn["world"]["tmax"] = round(scn["world"]["tmax"] + rng.uniform(0, 1) * scn["world"]["deltan"] * scn["world"]["reaction_time"], 3)      # no whole number of steps
        # moments of the calls and what is called
        pts = sorted(rng.randrange(0, n + 1) for _ in range(rng.choice([1, 2, 3])))
        if rng.random() < 0.7:
            pts[-1] = n
        calls = []
        for t in pts:
            for _ in range(rng.choice([1, 2, 3])):
                calls.append([t, rng.choice(["ks", "ks", "kt", "kr", "kr", "grid", "dist", "inst", "inst_t", "tsn", "route", "route", "traveled"]), rng.randrange(10 ** 6)])
        case["calls"] = calls

    def run(self, case, ctx):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.history(case, ctx)

    def history(self, case, ctx):
        scn, eng = case["scn"], case["engine"]
        from uxsim import Utilities as U
        self.U, self.eng, self.scn, self.net, self.ctx = U, eng, scn, Net(scn), ctx
        self.dist = []          # (step, free): the guidance record as it grew, copied at every moment
        calls = case["calls"]
        n = tsize(scn)
        W = build(ctx.ux, scn, eng, case["rng"])
        random.seed(12345)
        pts = sorted({c[0] for c in calls})
        i = 0
        for p in pts:
            if p > 0:
                self.advance(W, scn, p)
            ctx.probe("mid_run" if 0 < p < n else "at_end" if p == n else "before")
            for c in calls:
                if c[0] == p and (p > 0 or c[1] in ("ks", "kr", "dist", "route", "grid")):
                    getattr(self, "do_" + c[1])(W, random.Random(c[2]), p)
        self.advance(W, scn, n)
        X = build(ctx.ux, scn, eng, case["rng"])
        drive(X, scn)
        d = finger.diff(finger.world(W, eng), finger.world(X, eng))
        if d:
            fail("touched", "calling %s changed the simulation: %s" % (sorted({c[1] for c in calls}), d))
        self.count(ctx, W, scn, eng, 2)
        self.record(ctx, finger.world(X, eng, guide=False))

    def advance(self, W, scn, p):
        drive(W, scn, upto=p)

    # -------------------------------------------------------------- cost functions
    def cost(self, r, timed):
        """(the user's cost function, the reference cost by link name and time)"""
        kind = r.choice(COSTS)
        salt = r.randrange(1000)
        if kind == "length":
            f = lambda l, t=0: l.length
        elif kind == "hops":
            f = lambda l, t=0: 1
        elif kind == "hash":
            f = lambda l, t=0: pseudo(l.name, salt, t if timed else 0)
        elif kind == "flat":
            f = lambda l, t=0: 0 if pseudo(l.name, salt) < 5 else 3
        else:
            f = None
        return kind, f

    def pick(self, W, r):
        s, d = r.choice(self.net.nodes), r.choice(self.net.nodes)
        return s, d

    def arg(self, W, r, name):
        return W.get_node(name) if r.random() < 0.4 else name

    # -------------------------------------------------------------- k shortest routes
    def do_ks(self, W, r, p):
        self.k_shortest(W, r, p, None)

    def do_kt(self, W, r, p):
        self.k_shortest(W, r, p, r.choice([0, (p - 0.5) * W.DELTAT, r.uniform(0, W.TMAX), W.TMAX, W.TMAX * 3]))

    def k_shortest(self, W, r, p, t):
        net, ctx = self.net, self.ctx
        s, d = self.pick(W, r)
        k = r.choice([1, 2, 3, 5, 20, 1000])
        kind, f = self.cost(r, t is not None)
        kw = dict(k=k)
        L = {l.name: l for l in W.LINKS}
        if t is None:
            free = {l["name"]: l["len"] / L[l["name"]].u for l in self.scn["links"]}
            ref = (lambda n: free[n]) if f is None else (lambda n: f(L[n]))
            if f is not None:
                kw["cost_function"] = lambda l: f(l)
            call = lambda **x: self.U.enumerate_k_shortest_routes(W, self.arg(W, r, s), self.arg(W, r, d), **kw, **x)
            what = "enumerate_k_shortest_routes(%s, %s, k=%s, %s) at step %s" % (s, d, k, kind, p)
            ctx.probe("k_shortest")
        else:
            tti = {n: self.instant(W, l, t) for n, l in L.items()}
            ref = (lambda n: tti[n]) if f is None else (lambda n: f(L[n], t))
            if f is not None:
                kw["cost_function"] = lambda l, t: f(l, t)
            call = lambda **x: self.U.enumerate_k_shortest_routes_on_t(W, self.arg(W, r, s), self.arg(W, r, d), t, **kw, **x)
            what = "enumerate_k_shortest_routes_on_t(%s, %s, %s, k=%s, %s) at step %s" % (s, d, t, k, kind, p)
            ctx.probe("k_on_t")
        want = net.all_costs(s, d, ref)
        if want is None:
            ctx.probe("too_many")
            return
        if not want:
            import networkx as nx
            try:
                got = call()
            except (nx.NetworkXNoPath, nx.NodeNotFound):
                got = []
            if got:
                fail("route", "%s found %s; there is none" % (what, got))
            ctx.probe("unreachable")
            return
        if s == d:
            ctx.probe("same_node")
        try:
            routes, costs = call(return_cost=True)
            plain = call()
        except Exception as e:
            if s == d or not net.out[s]:
                return      # no promise for a search without a way to go
            raise
        if plain != routes:
            fail("route", "%s gives %s without and %s with the costs" % (what, plain, routes))
        if len(routes) != min(k, len(want)) or len(costs) != len(routes):
            fail("count", "%s gives %d routes and %d costs; there are %d" % (what, len(routes), len(costs), len(want)))
        seen = set()
        for q, (x, c) in enumerate(zip(routes, costs)):
            net.check(x, s, d, what)
            nodes = tuple(net.links[n]["a"] for n in x)
            if nodes in seen:
                fail("distinct", "%s gives the same path twice: %s" % (what, routes))
            seen.add(nodes)
            mine = sum(ref(n) for n in x)
            if not close(c, mine):
                fail("cost", "%s states cost %s for %s, which costs %s" % (what, c, x, mine))
            if not close(c, want[q]):
                fail("best", "%s: route %d costs %s instead of %s" % (what, q + 1, c, want[q]))
        if len(routes) > 1:
            ctx.probe("several_routes")

    def instant(self, W, l, t):
        """Recorded instantaneous travel time at t."""
        a = finger.seq(l.traveltime_instant)[:max(W.T, 1)]
        if not a:
            return l.length / l.u
        return a[min(max(int(t // W.DELTAT), 0), len(a) - 1)]

    # -------------------------------------------------------------- random route sets
    def do_kr(self, W, r, p):
        net, ctx = self.net, self.ctx
        k = r.choice([1, 1, 2, 3, 6])
        seed = r.randrange(10 ** 6)
        if self.eng == "cpp" and not W.finalized:
            return
        random.seed(seed)
        got = self.U.enumerate_k_random_routes(W, k)
        random.seed(seed)
        again = self.U.enumerate_k_random_routes(W, k)
        if {a: b for a, b in got.items()} != {a: b for a, b in again.items()}:
            fail("repeat", "enumerate_k_random_routes gives different routes with the same seed")
        L = {l.name: l for l in W.LINKS}
        free = lambda n: net.links[n]["len"] / L[n].u
        D = net.distances(free)
        ctx.probe("random_sets")
        for s in net.nodes:
            for d in net.nodes:
                what = "enumerate_k_random_routes(k=%d) from %s to %s at step %s" % (k, s, d, p)
                rs = got[s, d] if (s, d) in got else []
                if s == d:
                    if any(x for x in rs):
                        fail("route", "%s gives %s" % (what, rs))
                    continue
                if d not in D[s]:
                    if rs:
                        fail("route", "%s gives %s; there is none" % (what, rs))
                    continue
                if not 1 <= len(rs) <= k:
                    fail("count", "%s gives %d routes" % (what, len(rs)))
                for q, x in enumerate(rs):
                    net.check(x, s, d, what)
                    if x in rs[:q]:
                        fail("distinct", "%s gives the same route twice: %s" % (what, rs))
                c = [sum(free(n) for n in x) for x in rs]
                if not any(close(x, D[s][d]) for x in c):
                    fail("best", "%s gives routes of free-flow times %s; the shortest takes %s" % (what, c, D[s][d]))
                if len(rs) > 1:
                    ctx.probe("several_routes")
        pairs = [(l["a"], l["b"]) for l in self.scn["links"]]
        if len(set(pairs)) < len(pairs):
            ctx.probe("parallel")

    # -------------------------------------------------------------- grid networks
    def do_grid(self, W, r, p):
        m, n = r.choice([1, 1, 2, 3, 4]), r.choice([1, 2, 3, 5])
        kw = {k: v for k, v in dict(length=r.choice([300, 1000]), free_flow_speed=r.choice([10, 20]), number_of_lanes=r.choice([1, 2]), merge_priority=r.choice([0.5, 2])).items() if k == "length" or r.random() < 0.5}
        ux = self.ctx.ux
        G = ux.World(name="", deltan=5, tmax=1000, print_mode=0, save_mode=0, show_mode=0, random_seed=1, **(dict(cpp=True) if self.eng == "cpp" else {}))
        nodes, links = self.U.generate_grid_network(G, m, n, **kw)
        want = {(i, j) for i in range(m) for j in range(n)}
        if set(nodes) != want or sorted((x.x, x.y) for x in G.NODES) != sorted(want) or any((nodes[q].x, nodes[q].y) != q for q in want):
            fail("grid", "generate_grid_network(%d, %d) makes nodes %s at %s" % (m, n, sorted(nodes), sorted((x.x, x.y) for x in G.NODES)))
        adj = {(i, j, a, b) for i, j in want for a, b in want if abs(i - a) + abs(j - b) == 1}
        got = sorted((l.start_node.x, l.start_node.y, l.end_node.x, l.end_node.y) for l in G.LINKS)
        if set(links) != adj or got != sorted(adj) or any(((l.start_node.x, l.start_node.y, l.end_node.x, l.end_node.y)) != q for q, l in links.items()):
            fail("grid", "generate_grid_network(%d, %d) makes links %s between %s" % (m, n, sorted(links), got))
        for l in G.LINKS:
            for k, v in kw.items():
                if not close(getattr(l, dict(free_flow_speed="u").get(k, k)), v):
                    fail("grid", "link %s of a grid does not have %s %s" % (l.name, k, v))
        self.ctx.probe("grid")

    # -------------------------------------------------------------- distances
    def matrix(self, W, m, d, want, what, noise=0):
        """A result as matrix and as dictionary against the reference {source: {node: cost}}; noise: relative noise of the link times."""
        ids = {n.name: n.id for n in W.NODES}
        for a in W.NODES:
            for b in W.NODES:
                w = want(a.name, b.name)
                for how, v in (("matrix", m[ids[a.name], ids[b.name]]), ("names", d[a.name, b.name]), ("nodes", d[a, b])):
                    if not (close(v, w) or (math.isinf(w) and math.isinf(v)) or w - TOL <= v <= w * (1 + noise) + TOL):
                        fail("distance", "%s (%s) gives %s from %s to %s instead of %s" % (what, how, v, a.name, b.name, w))
        if len(d) != 2 * len(W.NODES) ** 2:
            fail("distance", "%s gives %d entries for %d nodes" % (what, len(d), len(W.NODES)))

    def do_dist(self, W, r, p):
        D = self.net.distances(lambda n: self.net.links[n]["len"])
        f = self.U.get_shortest_path_distance_between_all_nodes
        self.matrix(W, f(W, return_matrix=True), f(W), lambda a, b: D[a].get(b, math.inf), "get_shortest_path_distance_between_all_nodes at step %s" % p)
        self.ctx.probe("distance")

    def do_inst(self, W, r, p):
        """The current guidance distances: those of the latest update."""
        f = self.U.get_shortest_path_instantaneous_travel_time_between_all_nodes
        m, d = f(W, return_matrix=True), f(W)
        self.guided(W, m, d, p - 1, "get_shortest_path_instantaneous_travel_time_between_all_nodes at step %s" % p)
        self.ctx.probe("instant")

    def do_inst_t(self, W, r, p):
        f = self.U.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t
        t = r.choice([0, (p - 0.5) * W.DELTAT, r.uniform(0, max(p - 1, 0)) * W.DELTAT])
        if r.random() < 0.15 and W.T == W.TSIZE:
            t = W.TMAX * r.choice([1, 2])
        t = max(t, 0)
        (m, tm), (d, td) = f(W, t, return_time=True, return_matrix=True), f(W, t, return_time=True)
        if finger.diff(finger.seq(m.ravel()), finger.seq(f(W, t, return_matrix=True).ravel())) or f(W, t) != d or tm != td:
            fail("distance", "the forms of the result at %s differ" % t)
        step = min(int(t / W.DELTAT + 1e-9), p - 1)
        what = "get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(%s) at step %s" % (t, p)
        u = self.guided(W, m, d, step, what)
        if u is not None and not close(tm, u * W.DELTAT):
            fail("time", "%s states update time %s instead of %s" % (what, tm, u * W.DELTAT))
        self.ctx.probe("instant_on_t")

    def guided(self, W, m, d, step, what):
        """Distances of the latest guidance update until the step; parallel links and closures are left to C19."""
        pairs = [(l["a"], l["b"]) for l in self.scn["links"]]
        every = max(1, int(W.DUO_UPDATE_TIME / W.DELTAT))
        u = step // every * every
        closed = any(l.get("cap_in") == 0 for l in self.scn["links"]) or any(o[1] == "cap_in" for o in self.scn["ops"])
        toll = any(l.get("toll") for l in self.scn["links"]) or any(o[1] == "toll" for o in self.scn["ops"])
        if len(set(pairs)) < len(pairs) or closed or toll:
            return u
        L = {l.name: l for l in W.LINKS}
        tti = {n: finger.seq(l.traveltime_instant) for n, l in L.items()}
        if any(len(a) <= u for a in tti.values()):
            return u
        D = self.net.distances(lambda n: tti[n][u])
        self.matrix(W, m, d, lambda a, b: D[a].get(b, math.inf), what, W.DUO_NOISE)
        return u

    # -------------------------------------------------------------- time-space network
    def do_tsn(self, W, r, p):
        if p < W.TSIZE or W.TSIZE > 80 or len(self.net.nodes) > 9:
            return
        all_ = r.random() < 0.4 and W.TSIZE * len(self.net.nodes) < 250
        dt = r.choice([None, None, 1, 2, 7, 20])
        if dt == 1 and W.TMAX > 300 or (dt is None and W.DELTAT < 2 and W.TMAX > 300):
            dt = 7
        self.U.construct_time_space_network(W, dt=dt, from_origin_only=not all_)
        st = dt if dt is not None else max(1, int(W.DELTAT))
        tt = {l.name: finger.seq(l.traveltime_actual) for l in W.LINKS}
        times = range(0, int(W.TMAX), st)
        if all_:
            src = [(n, t) for n in self.net.nodes for t in times]
            self.ctx.probe("timespace_all")
        else:
            src = sorted({(v.orig.name, int(v.departure_time_in_second / st) * st) for v in W.VEHICLES.values()})
            src = [x for x in src if x[1] < int(W.TMAX)]
            for k in W.TSN_costs:
                if k not in src:
                    fail("timespace", "construct_time_space_network(dt=%s) searched from %s, where no vehicle departs" % (dt, k))
        self.ctx.probe("timespace")
        for s in (src if len(src) < 12 else r.sample(src, 12)):
            what = "construct_time_space_network(dt=%s) from %s" % (dt, s)
            want = self.earliest(W, s, st, tt)
            if s not in W.TSN_costs:
                fail("timespace", "%s: not searched" % what)
            C, P = W.TSN_costs[s], W.TSN_paths[s]
            for n in self.net.nodes:
                if (n in want) != ((n, "end") in C):
                    fail("timespace", "%s: %s is %sreachable" % (what, n, "" if n in want else "un"))
                if n not in want:
                    continue
                if not close(C[n, "end"], want[n]):
                    fail("timespace", "%s: travel time %s to %s instead of %s" % (what, C[n, "end"], n, want[n]))
                path = P[n, "end"]
                if path[0] != s or path[-1] != (n, "end") or path[-2][0] != n:
                    fail("timespace", "%s: path %s does not lead to %s" % (what, path, n))
                c = 0
                for a, b in zip(path[:-2], path[1:-1]):
                    w = [x for l in self.net.out[a[0]] if l["b"] == b[0] for x in [tt[l["name"]][min(int(a[1] / W.DELTAT), len(tt[l["name"]]) - 1)]] if int((a[1] + x) / st) * st == b[1]]
                    if not w:
                        fail("timespace", "%s: no link leads from %s to %s on path %s" % (what, a, b, path))
                    c += min(w)
                if not close(c, C[n, "end"]):
                    fail("timespace", "%s: path %s takes %s instead of %s" % (what, path, c, C[n, "end"]))

    def earliest(self, W, s, st, tt):
        """Least total travel time from (node, time) to every node, time counted in whole intervals."""
        best, q, out = {s: 0}, [(0, s)], {}
        while q:
            c, (n, t) = heapq.heappop(q)
            if c > best[n, t]:
                continue
            out[n] = min(out.get(n, math.inf), c)
            for l in self.net.out[n]:
                a = tt[l["name"]]
                x = a[min(int(t / W.DELTAT), len(a) - 1)]
                z = int((t + x) / st) * st
                if z < W.TMAX and z < int(W.TMAX) and c + x < best.get((l["b"], z), math.inf):
                    best[l["b"], z] = c + x
                    heapq.heappush(q, (c + x, (l["b"], z)))
        return out

    # -------------------------------------------------------------- route objects
    def do_route(self, W, r, p):
        net, ctx = self.net, self.ctx
        names = list(net.links)
        # a walk or an arbitrary sequence
        if r.random() < 0.65:
            at, seq = r.choice(net.nodes), []
            for _ in range(r.choice([0, 1, 2, 4, 7])):
                if not net.out[at]:
                    break
                l = r.choice(net.out[at])
                seq.append(l["name"])
                at = l["b"]
        else:
            seq = [r.choice(names) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        ok = all(net.links[a]["b"] == net.links[b]["a"] for a, b in zip(seq, seq[1:]))
        form = [W.get_link(x) if r.random() < 0.5 else x for x in seq]
        what = "defRoute(%s)" % seq
        try:
            R = W.defRoute(form, name="r")
        except Exception:
            if ok:
                fail("define", "%s was refused" % what)
            ctx.probe("not_consecutive")
            return
        if not ok:
            fail("define", "%s was accepted; the links are not consecutive" % what)
        ctx.probe("route_object")
        objs = [W.get_link(x) for x in seq]
        trusted = W.defRoute(list(objs), trust_input=True)
        for how, x in (("", R), (" trusted", trusted)):
            if list(x) != objs or list(x.links) != objs or list(x.links_name) != seq or len(x) != len(seq) or [x[i] for i in range(len(seq))] != objs:
                fail("define", "%s%s holds %s" % (what, how, [l.name for l in x]))
        if R.name != "r" or not (R == trusted) or (R != trusted):
            fail("define", "%s differs from the same trusted route" % what)
        if seq:
            other = W.defRoute(seq[:-1])
            if R == other or W.defRoute(seq) != R:
                fail("define", "%s: comparison with %s" % (what, seq[:-1]))
        if not W.finalized:
            return
        t0 = r.choice([0, r.uniform(0, W.TMAX), W.TMAX, -5, (r.randrange(W.TSIZE + 1) + 0.5) * W.DELTAT])
        t, tts = t0, []
        for x in seq:
            a = finger.seq(W.get_link(x).traveltime_actual)
            tts.append(a[min(max(int(t // W.DELTAT), 0), len(a) - 1)])
            t += tts[-1]
        got = R.actual_travel_time(t0)
        got2, det = R.actual_travel_time(t0, return_details=True)
        if got != got2 or not close(got, t - t0) or len(det) != len(tts) or any(not close(a, b) for a, b in zip(det, tts)):
            fail("time", "%s.actual_travel_time(%s) is %s / %s with parts %s; the recorded link travel times add up to %s from %s" % (what, t0, got, got2, det, t - t0, tts))

    def do_traveled(self, W, r, p):
        """The travelled route of a vehicle is a connected walk with its entry times, as its passage log has it."""
        vs = list(W.VEHICLES.values())
        for v in (vs if len(vs) < 10 else r.sample(vs, 10)):
            log = v.log_t_link
            es = [(t, l.name) for t, l in log if hasattr(l, "start_node")]
            end = [log[-1][0] if log and log[-1][1] == "end" else -1]
            for arr in (True, False):
                for dep in (True, False):
                    R, ts = v.traveled_route(include_arrival_time=arr, include_departure_time=dep)
                    want = ([t for t, l in log if isinstance(l, str) and l == "home"] if dep else []) + [t for t, _ in es] + (end if arr else [])
                    if [l.name for l in R] != [n for _, n in es] or list(ts) != want:
                        fail("traveled", "traveled_route(%s, %s) of %s gives %s %s instead of %s %s" % (arr, dep, v.name, [l.name for l in R], ts, [n for _, n in es], want))
            if es:
                self.net.check([n for _, n in es], v.orig.name, self.net.links[es[-1][1]]["b"], "the travelled route of %s" % v.name, loopless=False)
                self.ctx.probe("traveled")


PROP = C24()
