"""C23: imported street maps keep their topology, from the map service to the running world."""
import math, random, warnings
import numpy as np
from .. import finger
from ..prop import Prop
from ._lock import fail
from ._twin import quiet

TYPES = ["motorway", "motorway_link", "trunk", "primary", "secondary", "tertiary", "residential", "living_street", "service", "unclassified"]
SPEED2 = dict(motorway=100, trunk=80, primary=60, secondary=50, tertiary=40, residential=30, living_street=20, service=20, others=40)
LANES2 = dict(motorway=3, trunk=3, primary=2, secondary=2, tertiary=2, residential=1, living_street=1, service=1, others=1)
SPEED1 = dict(motorway=100, trunk=60, primary=50, secondary=50, residential=30, tertiary=30)
LANES1 = dict(motorway=3, trunk=3, primary=2, secondary=2, residential=1, tertiary=1)


class Down(Exception):
    """The map service or a tool fails."""


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def reach(out, s):
    seen, todo = {s}, [s]
    while todo:
        for m in out.get(todo.pop(), ()):
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def street_graph(m):
    """The directed street graph the simulated map service delivers, in the form of OSMnx: a two-way street is two edges."""
    import networkx as nx
    from shapely.geometry import LineString
    G = nx.MultiDiGraph(crs="epsg:4326", simplified=True)
    P = {n[0]: (n[1], n[2]) for n in m["nodes"]}
    for n, x, y in m["nodes"]:
        G.add_node(n, x=x, y=y, street_count=3)
    for s in m["streets"]:
        a, b = s["a"], s["b"]
        pts = [P[a]] + [tuple(q) for q in s["mid"]] + [P[b]]
        for u, v, rev in [(a, b, False)] + ([] if s["oneway"] else [(b, a, True)]):
            d = dict(osmid=s["osmid"], oneway=s["oneway"], reversed=rev, length=300.0)
            for k in ("highway", "lanes", "maxspeed", "name"):
                if s.get(k) is not None:
                    d[k] = s[k]
            if s["mid"]:
                d["geometry"] = LineString(pts[::-1] if rev else pts)
            G.add_edge(u, v, **d)
    return G


class Service:
    """Simulated map service and simplification tool with seeded failures."""

    def __init__(self, m, plan):
        self.m, self.plan, self.calls, self.simplified = m, list(plan), [], None

    def graph_from_bbox(self, bbox=None, network_type=None, custom_filter=None, north=None, south=None, east=None, west=None, **kw):
        self.calls.append(dict(bbox=bbox, type=network_type, filter=custom_filter, nsew=(north, south, east, west), kw=kw))
        act = self.plan.pop(0) if self.plan else "ok"
        if act == "old" and bbox is not None:
            raise TypeError("graph_from_bbox() got an unexpected keyword argument 'bbox'")
        if act == "down":
            raise Down("service")
        if act == "timeout":
            raise TimeoutError("service")
        return street_graph(self.m)

    def neatify(self, gdf, **kw):
        """A simplifier as the real one behaves: each street once, some of them without attributes, an own index."""
        self.kw = kw
        act = self.plan.pop(0) if self.plan else "ok"
        if act == "down":
            raise Down("simplification")
        r = random.Random(self.m["salt"])
        one = gdf["oneway"].astype(bool)
        g = gdf[one | ~gdf.geometry.normalize().duplicated()].copy().reset_index(drop=True)
        for i in g.index:
            if r.random() < self.m["blank"]:
                for k in ("highway", "lanes", "maxspeed", "name"):
                    if k in g.columns:
                        g.at[i, k] = None
        if self.m["salt"] % 2:
            g.index = [7 * k + 3 for k in range(len(g))][::-1]
        self.simplified = g
        return g


class C23(Prop):
    id = "C23"
    ext = None
    quick_n, thorough_n = 600, 20000
    case_limit = 120
    rule = ("one evaluation is one seeded street map delivered by a simulated map service, with seeded failures, through one of the two importers into an empty or used world, which is then run; every stage is checked "
            "against the map; distinct_nontrivial counts distinct imported networks")
    state_measure = "digest of the imported network and of the record of the run"
    want_probes = ["importer1", "importer2", "merged", "bidirectional", "unmerged", "twoway", "oneway", "simplified", "unsimplified", "typed", "untyped", "second_import", "name_clash", "failed_service", "failed_tool", "retried", "old_service", "run", "arrived", "node_capacity", "overridden", "no_columns", "parallel"]
    real = ["uxsim/OSMImporter/OSMImporter.py", "uxsim/OSMImporter2/OSMImporter2.py", "uxsim/uxsim.py", "osmnx projection and conversion (installed library)"]
    stub = ["map service (seeded street graphs, failures)", "neatnet.neatify (seeded simplifier, failures)", "wall clock (simulated)"]
    assumptions = ["maps of 2-14 places with up to ~30 streets; the form of the data is that of OSMnx 2; the real simplifier neatnet is not judged"]

    def nontrivial(self, ctx):
        return bool(ctx.probes.get("imported"))

    # -------------------------------------------------------------- generation
    def gen_map(self, rng, parallel=False):
        n = rng.choice([2, 3, 5, 8, 11, 14])
        step = rng.choice([0.002, 0.004, 0.008])
        x0, y0 = rng.choice([(139.7, 35.6), (-0.12, 51.5), (-74, 40.7), (151.2, -33.86)])
        nodes, seen = [], set()
        while len(nodes) < n:
            p = (rng.randrange(5), rng.randrange(5))
            if p in seen:
                continue
            seen.add(p)
            nodes.append([10 ** 6 + len(nodes) * 17, round(x0 + p[0] * step + rng.uniform(-0.3, 0.3) * step, 7), round(y0 + p[1] * step + rng.uniform(-0.3, 0.3) * step, 7)])
        # pairs of places very close to each other: candidates of merging
        for _ in range(rng.choice([0, 1, 3])):
            b = rng.choice(nodes)
            nodes.append([10 ** 6 + len(nodes) * 17, round(b[1] + rng.uniform(-1, 1) * 0.1 * step, 7), round(b[2] + rng.uniform(0.2, 1) * 0.1 * step, 7)])
        streets, pairs = [], set()
        p_attr = rng.choice([0, 0.5, 0.9])
        one = rng.choice([0, 0.3, 1])

        def add(a, b):
            again = (a, b) in pairs or (b, a) in pairs
            if a == b or again and not parallel:
                return
            pairs.add((a, b))
            s = dict(a=a, b=b, osmid=rng.randrange(10 ** 8) if rng.random() < 0.8 else [rng.randrange(10 ** 8), 5], oneway=rng.random() < one, mid=[])
            if again or rng.random() < 0.3:
                A, B = [next(q for q in nodes if q[0] == z) for z in (a, b)]
                s["mid"] = [[round((A[1] + B[1]) / 2 + rng.uniform(-0.2, 0.2) * step, 7), round((A[2] + B[2]) / 2 + rng.uniform(-0.2, 0.2) * step, 7)]]
            t = rng.choice(TYPES)
            s["highway"] = t if rng.random() < 0.85 else [t, rng.choice(TYPES), t]
            if rng.random() < p_attr:
                s["lanes"] = str(rng.choice([1, 2, 3, 4, 5])) if rng.random() < 0.7 else [str(rng.choice([1, 2])), str(rng.choice([2, 3, 4]))] if rng.random() < 0.8 else "2;3"
            if rng.random() < p_attr:
                s["maxspeed"] = str(rng.choice([20, 40, 50, 80])) if rng.random() < 0.7 else [str(rng.choice([30, 40])), str(rng.choice([50, 60]))] if rng.random() < 0.8 else "30 mph"
            if rng.random() < p_attr:
                s["name"] = rng.choice(["Ginza", "Main", "1st"]) if rng.random() < 0.8 else ["Main", "Ring"]
            streets.append(s)
        ids = [q[0] for q in nodes]
        for k in range(1, len(ids)):
            if rng.random() < 0.85:
                add(*rng.sample([ids[k], rng.choice(ids[:k])], 2))
        for _ in range(rng.choice([0, 2, len(ids)])):
            add(*rng.sample(ids, 2))
        if parallel and streets:
            for _ in range(rng.choice([0, 1, 3])):
                q = rng.choice(streets)
                add(*rng.choice([(q["a"], q["b"]), (q["b"], q["a"])]))
        if not streets:
            add(ids[0], ids[1])
        return dict(nodes=nodes, streets=streets, step=step, salt=rng.randrange(1000), blank=rng.choice([0, 0.2, 0.6]))

    def gen(self, rng, idx):
        imp = rng.choice([1, 2, 2])
        m = self.gen_map(rng, imp == 2)
        case = dict(map=m, importer=imp, plan=rng.choice([[], [], [], ["down"], ["timeout"], ["down", "timeout"], ["old"], ["ok", "down"]]), use=rng.choice(["empty", "empty", "names", "twice"]), seed=rng.randrange(10 ** 6), form=rng.choice(["bbox", "nsew"]),
                    run=rng.random() < 0.5)
        if case["importer"] == 1:
            case["threshold"] = rng.choice([0, 0.15, 0.15, 0.5, 1.2]) * m["step"]
            case["iters"] = rng.choice([1, 2, 5, 5])
            case["bi"] = rng.random() < 0.4
            case["coef"] = rng.choice([111000, 100000])
            case["kappa"] = rng.choice([0.2, 0.15])
        else:
            case["simplify"] = rng.random() < 0.5
            case["override"] = rng.random() < 0.25
            case["ncap"] = rng.random() < 0.6
            case["speeds"] = dict(primary=12.5) if rng.random() < 0.3 else {}
            case["lanes"] = dict(primary=3) if rng.random() < 0.3 else {}
        return case

    def shrink(self, case):
        m = case["map"]
        for k in range(len(m["streets"])):
            x = dict(case, map=dict(m, streets=m["streets"][:k] + m["streets"][k + 1:]))
            if x["map"]["streets"]:
                yield x
        for k in range(len(m["nodes"])):
            n = m["nodes"][k][0]
            if not any(n in (s["a"], s["b"]) for s in m["streets"]):
                yield dict(case, map=dict(m, nodes=m["nodes"][:k] + m["nodes"][k + 1:]))
        for k, v in (("plan", []), ("use", "empty"), ("run", False)):
            if case[k] != v:
                yield dict(case, **{k: v})

    # -------------------------------------------------------------- one history
    def run(self, case, ctx):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import osmnx as ox
            S = Service(case["map"], case["plan"])
            old = ox.graph.graph_from_bbox
            ox.graph.graph_from_bbox = S.graph_from_bbox
            try:
                W = ctx.ux.World(name="", deltan=5, tmax=1500, print_mode=0, save_mode=0, show_mode=0, random_seed=case["seed"])
                if case["use"] == "names":
                    # names the import will meet again, and two nodes far away from the map
                    far = [W.addNode(x, -9e6 - i, -9e6) for i, x in enumerate(["0", str(case["map"]["nodes"][0][0]), "1"])]
                    W.addLink("0", far[0], far[1], length=500)
                    W.addLink("Main", far[1], far[2], length=500)
                    ctx.probe("name_clash")
                (self.one if case["importer"] == 1 else self.two)(case, ctx, W, S)
                ctx.probe("imported")
                if case["run"]:
                    self.drive(case, ctx, W)
            finally:
                ox.graph.graph_from_bbox = old
        ctx.runs += 1
        h = finger.digest([[n.name, n.x, n.y] for n in W.NODES] + [[l.name, l.start_node.name, l.end_node.name, l.length, l.u, l.number_of_lanes] for l in W.LINKS])
        ctx.feed(h)
        ctx.states.add(h)

    def attempt(self, case, ctx, W, S, f):
        """Calls the import until the service works; a failed attempt leaves the world as it was."""
        for k in range(6):
            before = self.shape(W)
            n = len(S.plan)
            try:
                r = f()
            except (Down, TimeoutError) as e:
                ctx.fault(str(e) or "timeout")
                ctx.probe("failed_tool" if str(e) == "simplification" else "failed_service")
                if self.shape(W) != before:
                    fail("half", "an import that failed (%r) left the world changed" % e)
                continue
            if k:
                ctx.probe("retried")
            return r
        fail("retry", "the import fails although the service works")

    def shape(self, W):
        return [(n.name, n.x, n.y, n.flow_capacity) for n in W.NODES], [(l.name, l.start_node.name, l.end_node.name, l.length) for l in W.LINKS]

    def area(self, case):
        xs, ys = [n[1] for n in case["map"]["nodes"]], [n[2] for n in case["map"]["nodes"]]
        w, s, e, n = min(xs) - 0.01, min(ys) - 0.01, max(xs) + 0.01, max(ys) + 0.01
        return [w, s, e, n]

    def asked(self, case, S, filt):
        w, s, e, n = self.area(case)
        for c in S.calls:
            if c["type"] != "drive" or c["filter"] != filt:
                fail("request", "the map service was asked for %s" % c)
            if c["bbox"] is None and c["nsew"] != (n, s, e, w) and c["nsew"] != (w, s, e, n):
                fail("request", "the map service was asked for no area: %s" % c)
            if c["bbox"] is not None and list(c["bbox"]) != [w, s, e, n]:
                fail("request", "the map service was asked for the area %s instead of %s" % (c["bbox"], [w, s, e, n]))

    # -------------------------------------------------------------- the first importer
    def one(self, case, ctx, W, S):
        from uxsim.OSMImporter import OSMImporter
        I = OSMImporter.OSMImporter if hasattr(OSMImporter, "OSMImporter") else OSMImporter
        m = case["map"]
        ctx.probe("importer1")
        w, s, e, n = self.area(case)
        kw = dict(bbox=[w, s, e, n]) if case["form"] == "bbox" else dict(north=n, south=s, east=e, west=w)
        if S.plan and S.plan[0] == "old" and "bbox" not in kw:
            S.plan = []
        if "old" in S.plan:
            ctx.probe("old_service")
        nodes, links = self.attempt(case, ctx, W, S, lambda: I.import_osm_data(custom_filter='["highway"~"primary"]', **kw))
        self.asked(case, S, '["highway"~"primary"]')
        # what the service delivered
        P = {q[0]: (q[1], q[2]) for q in m["nodes"]}
        want = {}
        for t in m["streets"]:
            for u, v in [(t["a"], t["b"])] + ([] if t["oneway"] else [(t["b"], t["a"])]):
                want[u, v] = t
        used = {x for p in want for x in p}
        if {q[0]: (q[1], q[2]) for q in nodes} != {x: P[x] for x in used} or len(nodes) != len(used):
            fail("import", "places %s imported; the streets use %s" % (sorted(q[0] for q in nodes), sorted(used)))
        got = {}
        for l in links:
            got.setdefault((l[1], l[2]), []).append(l)
        if set(got) != set(want) or len(links) != len(want):
            fail("import", "streets %s imported instead of %s" % (sorted((l[1], l[2]) for l in links), sorted(want)))
        for p, (l,) in got.items():
            t = want[p]
            hw = t["highway"]
            lanes = int(t["lanes"]) if isinstance(t.get("lanes"), str) and t["lanes"].isdigit() else None
            speed = float(t["maxspeed"]) if isinstance(t.get("maxspeed"), str) and t["maxspeed"].isdigit() else None
            kinds = [k for k in LANES1 if k in hw] or [None]
            wl = [lanes] if lanes is not None else [LANES1.get(k, 1) for k in kinds]
            ws = [speed] if speed is not None else [SPEED1.get(k, 30) for k in kinds]
            if l[3] not in wl or not any(close(l[4], x / 3.6) for x in ws):
                fail("attribute", "street %s of type %s, lanes %s, speed %s imported with %s lanes and %s m/s" % (p, hw, t.get("lanes"), t.get("maxspeed"), l[3], l[4]))
            if t.get("name") is not None and not str(l[0]).startswith(self.called(t)):
                fail("attribute", "street %s called %s is imported as %r" % (p, t["name"], l[0]))
        raw = ([list(q) for q in nodes], [list(l) for l in links])
        nodes2, links2 = I.osm_network_postprocessing(nodes, links, node_merge_threshold=case["threshold"], node_merge_iteration=case["iters"], enforce_bidirectional=case["bi"])
        self.merged(case, ctx, raw, nodes2, links2)
        self.load(case, ctx, W, I, nodes2, links2)
        if case["use"] == "twice" and links2:
            self.load(case, ctx, W, I, nodes2, links2)
            ctx.probe("second_import")

    def merged(self, case, ctx, raw, nodes, links):
        thr = case["threshold"]
        P = {q[0]: (q[1], q[2]) for q in raw[0]}
        Q = {q[0]: (q[1], q[2]) for q in nodes}
        if any(P.get(n) != p for n, p in Q.items()) or len(Q) != len(nodes):
            fail("merge", "merging moved or invented places: %s" % {n: (P.get(n), p) for n, p in Q.items() if P.get(n) != p})
        out0, out1 = {}, {}
        for l in raw[1]:
            out0.setdefault(l[1], set()).add(l[2])
        seen = set()
        for l in links:
            if l[1] not in Q or l[2] not in Q:
                fail("merge", "link %s leads from or to a place that was removed" % l[:3])
            if l[1] == l[2] or (l[1], l[2]) in seen:
                fail("merge", "link %s is a loop or double" % l[:3])
            seen.add((l[1], l[2]))
            out1.setdefault(l[1], set()).add(l[2])
            if not close(l[5], math.dist(Q[l[1]], Q[l[2]]), 1e-9):
                fail("length", "link %s has length %s; its ends are %s apart" % (l[:3], l[5], math.dist(Q[l[1]], Q[l[2]])))
            if not any(x[0] == l[0] or l[0].startswith(x[0]) for x in raw[1]) or not any(x[3] == l[3] and x[4] == l[4] for x in raw[1]):
                fail("merge", "link %s has attributes of no street" % l)
            if case["bi"] and not any(x[1] == l[2] and x[2] == l[1] for x in links):
                fail("bidirectional", "link %s has no reverse" % l[:3])
        for n in Q:
            lost = {x for x in reach(out0, n) if x in Q} - reach(out1, n)
            if lost:
                fail("connected", "%s no longer leads to %s after merging" % (n, sorted(lost)))
        touch = {}
        for l in raw[1]:
            for a, b in ((l[1], l[2]), (l[2], l[1])):
                touch[a] = min(touch.get(a, math.inf), math.dist(P[a], P[b]))
        short = {n for n, d in touch.items() if d <= thr}
        if case["iters"] == 1:
            for n in P:
                if n not in Q and n not in short and any(x not in short for x in out0.get(n, ())):
                    fail("merge", "place %s was removed although no short street touches it" % n)
            # each pair of places far from short streets keeps exactly its streets
            a = {(l[1], l[2]) for l in raw[1] if l[1] not in short and l[2] not in short}
            b = {(l[1], l[2]) for l in links if l[1] not in short and l[2] not in short}
            if not a <= b or (b - a and not case["bi"]) or any((y, x) not in a for x, y in b - a):
                fail("merge", "away from short streets the links %s became %s" % (sorted(a), sorted(b)))
        if not short:
            ctx.probe("unmerged")
            a = {(l[1], l[2]) for l in raw[1]}
            b = {(l[1], l[2]) for l in links}
            if a - b or (b - a and not case["bi"]):
                fail("merge", "no street is shorter than %s, but the links %s became %s" % (thr, sorted(a), sorted(b)))
        elif len(Q) < len(P):
            ctx.probe("merged")
        if case["bi"]:
            ctx.probe("bidirectional")

    def load(self, case, ctx, W, I, nodes, links):
        n0, l0 = len(W.NODES), len(W.LINKS)
        before = self.shape(W)
        I.osm_network_to_World(W, nodes, links, default_jam_density=case["kappa"], coef_degree_to_meter=case["coef"])
        self.kept(W, before)
        N, L = W.NODES[n0:], W.LINKS[l0:]
        if [(n.x, n.y) for n in N] != [(q[1], q[2]) for q in nodes]:
            fail("world", "places %s became nodes %s" % (nodes, [(n.name, n.x, n.y) for n in N]))
        ids = {q[0]: n for q, n in zip(nodes, N)}
        if len(L) != len(links):
            fail("world", "%d links became %d" % (len(links), len(L)))
        for q, l in zip(links, L):
            if l.start_node is not ids[q[1]] or l.end_node is not ids[q[2]]:
                fail("world", "link %s from %s to %s leads from %s to %s in the world" % (l.name, q[1], q[2], l.start_node, l.end_node))
            if not close(l.length, q[5] * case["coef"]) or l.u != q[4] or l.number_of_lanes != q[3] or not close(l.kappa, case["kappa"] * q[3]):
                fail("world", "link %s became %s m, %s m/s, %s lanes, jam density %s" % (q, l.length, l.u, l.number_of_lanes, l.kappa))

    def kept(self, W, before):
        n, l = self.shape(W)
        if n[:len(before[0])] != before[0] or l[:len(before[1])] != before[1]:
            fail("world", "importing changed what the world had before")
        if len({x[0] for x in n}) != len(n) or len({x[0] for x in l}) != len(l):
            fail("world", "names are not unique after the import")

    # -------------------------------------------------------------- the second importer
    def two(self, case, ctx, W, S):
        from uxsim.OSMImporter2 import OSMImporter2 as M
        ctx.probe("importer2")
        S.plan = [x for x in S.plan if x != "old"]
        if not case["simplify"]:
            S.plan = [x for i, x in enumerate(S.plan) if not (i and x == "down" and S.plan[0] == "ok")]
        real = M.neatnet.neatify
        M.neatnet.neatify = S.neatify
        try:
            w, s, e, n = self.area(case)
            kw = dict(bbox=[w, s, e, n]) if case["form"] == "bbox" else dict(north=n, south=s, east=e, west=w)

            def imp():
                M.osm_network_to_World(W, custom_filter='["highway"~"trunk"]', simplification=case["simplify"], override_osm_attributes=case["override"], set_node_capacity=case["ncap"],
                                       maxspeed_by_road_type=dict(case["speeds"]), lanes_by_road_type=dict(case["lanes"]),
                                       kwargs_dict_for_osmnx_graph_from_bbox=dict(retain_all=True), kwargs_dict_for_neatnet_neatify=dict(artifact_threshold=7), **kw)
            for k in range(2 if case["use"] == "twice" else 1):
                n0, l0, before = len(W.NODES), len(W.LINKS), self.shape(W)
                S.simplified = None
                self.attempt(case, ctx, W, S, imp)
                if case["simplify"] and S.simplified is None:
                    fail("failure", "the simplification failed, and the import went on without it")
                self.asked(case, S, '["highway"~"trunk"]')
                if any(c["kw"] != dict(retain_all=True) for c in S.calls) or (case["simplify"] and S.kw != dict(artifact_threshold=7)):
                    fail("request", "options were not handed on")
                self.kept(W, before)
                self.streets(case, ctx, W, S, W.NODES[n0:], W.LINKS[l0:])
                if k:
                    ctx.probe("second_import")
        finally:
            M.neatnet.neatify = real

    def streets(self, case, ctx, W, S, N, L):
        """The imported nodes and links against the streets handed to the importer."""
        import osmnx as ox
        if case["simplify"]:
            rows = [self.row(r) for _, r in S.simplified.iterrows()]
            ctx.probe("simplified")
        else:
            g = ox.graph_to_gdfs(ox.project_graph(street_graph(case["map"])))[1]
            rows, seen = [], set()
            for _, r in g.iterrows():
                q = self.row(r)
                key = tuple(sorted([q["geo"], q["geo"][::-1]])[0])
                if not q["oneway"]:
                    if key in seen:
                        continue        # the other direction of a two-way street
                    seen.add(key)
                rows.append(q)
            ctx.probe("unsimplified")
        # places
        def key(p):
            return (round(float(p[0]), 3), round(float(p[1]), 3))
        places = {key(p) for q in rows for p in (q["geo"][0], q["geo"][-1])}
        at = {key((n.x, n.y)): n for n in N}
        if set(at) != places or len(N) != len(places):
            fail("places", "the streets have the %d ends %s; %d nodes at %s were made" % (len(places), sorted(places)[:5], len(N), sorted(at)[:5]))
        # streets: directed links with their lengths
        def table(a):
            d = {}
            for u, v, ln in a:
                d.setdefault((u, v), []).append(ln)
            return {k: sorted(v) for k, v in d.items()}
        want = table([(key(q["geo"][0]), key(q["geo"][-1]), q["len"]) for q in rows] + [(key(q["geo"][-1]), key(q["geo"][0]), q["len"]) for q in rows if not q["oneway"]])
        got = table([(key((l.start_node.x, l.start_node.y)), key((l.end_node.x, l.end_node.y)), l.length) for l in L])
        if any(not any(l.start_node is n for n in N) or not any(l.end_node is n for n in N) for l in L):
            fail("places", "an imported link is connected to a node that was there before")
        if any(len(v) > 1 for v in want.values()):
            ctx.probe("parallel")
        if set(want) != set(got):
            fail("streets", "missing links %s, unexpected links %s" % (sorted(set(want) - set(got)), sorted(set(got) - set(want))))
        for k in want:
            if len(want[k]) != len(got[k]) or any(not close(a, b) for a, b in zip(want[k], got[k])):
                fail("streets", "from %s to %s lead links of lengths %s instead of %s" % (k[0], k[1], got[k], want[k]))
        # attributes
        speeds = {k: v / 3.6 for k, v in SPEED2.items()}
        speeds.update(case["speeds"])
        lanes = dict(LANES2, **case["lanes"])
        near = {}
        for q in rows:
            for p in (q["geo"][0], q["geo"][-1]):
                near.setdefault(key(p), []).append(q)
        for q in rows:
            a, b = key(q["geo"][0]), key(q["geo"][-1])
            ls = [l for l in L if key((l.start_node.x, l.start_node.y)) == a and key((l.end_node.x, l.end_node.y)) == b and close(l.length, q["len"])]
            if self.called(q) and ls and not any(str(l.name).startswith(self.called(q)) for l in ls):
                fail("attribute", "street %s called %s became %s" % ((a, b), q["name"], [l.name for l in ls]))
            hw = q["highway"]
            if hw is None:
                ctx.probe("untyped")
                # the type of a street around; where these are unknown or several themselves, theirs are estimated in turn
                cand = [x["highway"] for p in (a, b) for x in near[p] if x is not q]
                plain = cand and all(isinstance(t, str) for t in cand)
                types = set(cand) if plain and q["oneway"] and any(key(x["geo"][-1]) == a or key(x["geo"][0]) == b for x in rows if x is not q) else {self.first(x["highway"]) for x in rows} | {None}
            else:
                types = {self.first(hw)}
                ctx.probe("typed")
            sp = self.number(q["maxspeed"], float, lambda v: sum(v) / len(v))
            ws = [sp / 3.6] if sp is not None and not case["override"] else [speeds["others"]] if sp == "bad" and not case["override"] else [speeds[self.kind(t, speeds)] for t in types]
            if isinstance(q["maxspeed"], (str, list)) and sp is None and not case["override"]:
                ws = [speeds["others"]]
            ln = self.number(q["lanes"], int, max)
            if ln is not None and not case["override"]:
                wl = [ln]
            elif isinstance(q["lanes"], (str, list)) and not case["override"]:
                wl = [lanes["others"]]
            else:
                wl = [lanes[self.kind(t, lanes)] * (1 if q["oneway"] else 2) for t in types]
            if not q["oneway"]:
                wl = [max(1, int(x / 2)) for x in wl] + ([1] if any(self.kind(t, lanes) == "others" for t in types) else [])
            ctx.probe("oneway" if q["oneway"] else "twoway")
            if case["override"]:
                ctx.probe("overridden")
            if not any(any(close(l.u, x) for x in ws) and l.number_of_lanes in wl for l in ls):
                fail("attribute", "street %s became links of (speed, lanes) %s instead of one of %s x %s" % ({k: q[k] for k in ("highway", "lanes", "maxspeed", "oneway")}, [(l.u, l.number_of_lanes) for l in ls], ws, wl))
        if not any(k in r for r in case["map"]["streets"] for k in ("lanes",)):
            ctx.probe("no_columns")
        for n in N:
            k = max(l.number_of_lanes for l in list(n.inlinks.values()) + list(n.outlinks.values()))
            if case["ncap"]:
                if not close(n.flow_capacity, 1.6 * k) or n.number_of_lanes != 2 * k:
                    fail("capacity", "node %s with up to %s lanes has capacity %s and %s lanes" % (n.name, k, n.flow_capacity, n.number_of_lanes))
                ctx.probe("node_capacity")
            elif n.flow_capacity is not None:
                fail("capacity", "node %s has capacity %s" % (n.name, n.flow_capacity))

    def first(self, hw):
        if hw is None:
            return None
        if isinstance(hw, list):
            return max(hw, key=hw.count)
        return hw

    def called(self, t):
        """The name of a street; of several names, the first."""
        c = t.get("name")
        if isinstance(c, list):
            c = c[0] if c else None
        return c if isinstance(c, str) else ""

    def kind(self, t, table):
        if t is None:
            return "others"
        return next((k for k in table if k in t), "others")

    def number(self, v, cast, many):
        try:
            if isinstance(v, str):
                return cast(v)
            if isinstance(v, list):
                return many([cast(x) for x in v])
        except ValueError:
            pass
        return None

    def row(self, r):
        def val(k):
            v = r[k] if k in r else None
            return None if isinstance(v, float) and math.isnan(v) else v
        geo = [(x, y) for x, y in r["geometry"].coords]
        return dict(geo=geo, len=sum(math.dist(a, b) for a, b in zip(geo, geo[1:])), oneway=bool(r["oneway"]), highway=val("highway"), lanes=val("lanes"), maxspeed=val("maxspeed"), name=val("name"))

    # -------------------------------------------------------------- the simulator accepts the network
    def drive(self, case, ctx, W):
        if not W.LINKS:
            return
        rr = random.Random(case["seed"])
        out = {}
        for l in W.LINKS:
            out.setdefault(l.start_node, set()).add(l.end_node)
        pairs = [(a, b) for a in W.NODES for b in reach(out, a) if a is not b]
        if not pairs:
            return
        pairs.sort(key=lambda p: (p[0].name, p[1].name))
        for a, b in rr.sample(pairs, min(len(pairs), 6)):
            W.adddemand(a, b, 0, 300, 0.1)
        if not W.VEHICLES:
            return
        W.exec_simulation()
        n = 0
        for v in W.VEHICLES.values():
            es = [l for _, l in v.log_t_link if hasattr(l, "start_node")]
            at = v.orig
            for l in es:
                if l.start_node is not at:
                    fail("run", "vehicle %s jumps from %s to link %s" % (v.name, at, l))
                at = l.end_node
            if v.state == "abort":
                fail("run", "vehicle %s from %s to %s gave up; there is a way" % (v.name, v.orig, v.dest))
            if v.state == "end" and at is not v.dest:
                fail("run", "vehicle %s to %s ended at %s" % (v.name, v.dest, at))
            n += v.state == "end"
        ctx.probe("run")
        ctx.probe("arrived", n)
        ctx.steps += W.T
        ctx.simsec += W.TIME


PROP = C23()
