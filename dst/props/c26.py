"""C26: a rejected call leaves the world as it was, and names keep identifying one entity.

User errors are the faults: at seeded moments before, during and after a run, calls with unknown or used names, links that do not
connect, signal groups that do not fit and the like are injected. Each has to be rejected by an exception (or, for negative
parameters, be ignored), nothing of the world may differ right afterwards, and the whole run has to be the run of a twin world in
which nobody made a mistake.
"""
import json, random, warnings
from .. import finger, scen
from ._lock import fail
from ._twin import TwinProp, build, drive, same, tsize, quiet


def config(W, engine):
    """The settings of a world, with everything that decides its future."""
    nm = finger.nm
    d = dict(nodes={}, links={}, vehicles={}, info=json.loads(json.dumps(W.demand_info, default=lambda o: getattr(o, "name", None) or str(type(o)), sort_keys=True)))
    for n in W.NODES:
        d["nodes"][n.name] = dict(id=n.id, x=finger._f(n.x), y=finger._f(n.y), ins=list(n.inlinks), outs=list(n.outlinks), signal=finger.seq(n.signal), offset=finger._f(n.signal_offset),
                                  cycle=finger._f(n.cycle_length), lanes=finger._f(n.number_of_lanes), fcap=finger._f(n.flow_capacity), phase=finger._f(n.signal_phase), t=finger._f(n.signal_t))
    for l in W.LINKS:
        d["links"][l.name] = dict(id=l.id, a=nm(l.start_node), b=nm(l.end_node), sg=list(l.signal_group), **{k: finger._f(getattr(l, k)) for k in
                                  ("length", "u", "free_flow_speed", "kappa", "jam_density", "tau", "w", "capacity", "delta", "delta_per_lane", "number_of_lanes", "merge_priority", "capacity_in", "capacity_out", "capacity_in_remain", "capacity_out_remain", "route_choice_penalty")})
    for n, v in W.VEHICLES.items():
        e = dict(name=v.name, state=v.state, attr=v.attribute)
        if engine == "py":
            e.update(id=v.id, prefer=[nm(l) for l in v.links_prefer], avoid=[nm(l) for l in v.links_avoid], route=None if v.specified_route is None else [nm(l) for l in v.specified_route],
                     dest=nm(v.dest), dests=[nm(x) for x in v.dest_list], events=sorted(nm(x) for x in v.node_event), mode=v.mode)
        else:
            c = v._cpp_vehicle
            e.update(dest=nm(v.dest), prefer=[l.name for l in c.links_preferred], avoid=[l.name for l in c.links_avoid])
        d["vehicles"][n] = e
    d["dicts"] = [sorted(W.NODES_NAME_DICT), sorted(W.LINKS_NAME_DICT), list(W.VEHICLES), list(W.VEHICLES_LIVING), list(W.VEHICLES_RUNNING)]
    for lst, dic, what in ((W.NODES, W.NODES_NAME_DICT, "node"), (W.LINKS, W.LINKS_NAME_DICT, "link")):
        if len(lst) != len(dic) or any(dic.get(o.name) is not o for o in lst):
            fail("names", "the names %s do not identify the %ss %s" % (sorted(dic), what, [o.name for o in lst]))
    for n, v in W.VEHICLES.items():
        if v.name != n:
            fail("names", "vehicle %s is registered as %s" % (v.name, n))
    return d


def state_of(W, engine):
    return finger.world(W, engine, logs=False) if W.finalized else {}


def requests(taxi):
    if not taxi:
        return []
    return [[str(q.name), q.orig.name, q.dest.name, finger._f(q.depart_time), q.taxi.name if q.taxi else None, finger._f(q.get_taxi_time), finger._f(q.arrival_time), q in taxi[0].trip_requests] for q in taxi[0].trip_requests_all]


NOPE = "no-such-thing"


class Mistakes:
    """The calls that have to be rejected. Each entry: name -> (how it is rejected, call)."""

    def __init__(self, W, r, engine, scn, taxi):
        self.W, self.r, self.engine, self.scn, self.taxi = W, r, engine, scn, taxi

    def pool(self):
        W, r = self.W, self.r
        n, m = r.choice(W.NODES).name, r.choice(W.NODES).name
        l = r.choice(W.LINKS)
        ln = r.choice(W.LINKS).name
        o, d = l.start_node.name, l.end_node.name
        t = r.choice([0, 5, (W.T + 3) * W.DELTAT if W.finalized else 20])
        v = r.choice(list(W.VEHICLES.values())) if W.VEHICLES else None
        p = {
            "node-name": lambda: W.addNode(n, 3, 4),
            "node-name-lanes": lambda: W.addNode(n, 3, 4, signal=[10, 20], flow_capacity=0.5),
            "link-name": lambda: W.addLink(l.name, n, m, 500),
            "link-start": lambda: W.addLink("new", NOPE, n, 500),
            "link-end": lambda: W.addLink("new", n, NOPE, 500),
            "vehicle-origin": lambda: W.addVehicle(NOPE, d, t),
            "vehicle-destination": lambda: W.addVehicle(o, NOPE, t),
            "vehicle-prefer": lambda: W.addVehicle(o, d, t, links_prefer=[ln, NOPE]),
            "vehicle-avoid": lambda: W.addVehicle(o, d, t, links_avoid=[ln, NOPE]),
            "demand-origin": lambda: W.adddemand(NOPE, d, t, t + 100, 0.5),
            "demand-destination": lambda: W.adddemand(o, NOPE, t, t + 100, volume=30),
            "demand-nodes": lambda: W.adddemand_nodes2nodes([o, NOPE], [d], t, t + 100, 0.5),
            "demand-nodes-dest": lambda: W.adddemand_nodes2nodes2([o], [d, NOPE], t, t + 100, volume=30),
            "get-node": lambda: W.get_node(NOPE),
            "get-link": lambda: W.get_link(NOPE),
            "route-unknown": lambda: W.defRoute([ln, NOPE]),
        }
        # links that do not follow each other
        gaps = [(a, b) for a in W.LINKS for b in W.LINKS if a.end_node is not b.start_node]
        if gaps:
            a, b = r.choice(gaps)
            p["route-gap"] = lambda: W.defRoute([a.name, b.name])
        nd = l.end_node
        ins = [x.name for x in nd.inlinks.values()]
        other = [x.name for x in W.LINKS if x.end_node is not nd]
        kw = dict(signal_offset=r.choice([0, 7]), reset=r.random() < 0.5)
        p["signal-count"] = lambda: nd.override_signal([10, 20], groups=[ins], **kw)
        p["signal-unknown"] = lambda: nd.override_signal([10, 20], groups=[ins, [NOPE]], **kw)
        if other:
            p["signal-foreign"] = lambda: nd.override_signal([10, 20, 30], groups=[ins, [], [r.choice(other)]], **kw)
        if v is not None:
            p["vehicle-name"] = lambda: W.addVehicle(o, d, t, name=v.name)
            p["vehicle-name-more"] = lambda: W.addVehicle(o, d, t, name=v.name, links_prefer=[ln], attribute=3)
            p["enforce-unknown"] = lambda: v.enforce_route([ln, NOPE])
            p["enforce-strict-unknown"] = lambda: v.enforce_route([ln, NOPE], set_avoid=True)
            p["prefer-unknown"] = lambda: v.set_links_prefer([ln, NOPE])
            p["avoid-unknown"] = lambda: v.set_links_avoid([ln, NOPE])
            if not self.taxi or v.mode != "taxi":
                p["dest-no-taxi"] = lambda: v.add_dest(n)
                p["dests-no-taxi"] = lambda: v.add_dests([n, m])
        if self.taxi:
            H, cab = self.taxi
            p["taxi-dest"] = lambda: cab.add_dest(NOPE)
            p["taxi-dests"] = lambda: cab.add_dests([n, NOPE])
            p["taxi-request-origin"] = lambda: H.add_trip_request(NOPE, n, t)
            p["taxi-request-dest"] = lambda: H.add_trip_request(n, NOPE, t)
            p["taxi-get-trip"] = lambda: H.get_trip(NOPE)
            if H.trip_requests and v is not None and v.mode != "taxi":
                p["taxi-no-taxi"] = lambda: H.assign_taxi(v, H.trip_requests[0])
            done = [x for x in H.trip_requests_all if x not in H.trip_requests]
            if done:
                c2 = r.choice([x for x in W.VEHICLES.values() if x.mode == "taxi"])
                p["taxi-again"] = lambda: H.assign_taxi(c2, done[0])
        p["file"] = lambda: W.load_scenario("/nonexistent/dir/file")
        p["csv"] = lambda: W.generate_Nodes_from_csv("/nonexistent/dir/file.csv")
        q = {"speed-negative": lambda: l.change_free_flow_speed(-r.choice([1, 1e-9, 30])), "jam-negative": lambda: l.change_jam_density(-0.1)}
        return p, q


class C26(TwinProp):
    id = "C26"
    quick_n, thorough_n = 900, 60000
    cpp_share = 0.4
    det_n = 20
    rule = ("one evaluation is one seeded scenario run twice, without and with mistaken calls injected at seeded moments before, during and after the run: each has to be rejected, nothing may differ right after it, and the complete "
            "records, settings and recorded demands of both worlds have to agree; objects of another world stand for names in a part of the runs and leave that world alone")
    want_probes = ["taxi-again", "mistake_before", "mistake_during", "mistake_after", "engine_cpp", "engine_py", "foreign_objects", "renamed", "taxi_world", "vehicle-name", "signal-foreign", "vehicle-destination"]

    def make_opts(self, rng, engine):
        return dict(short=0, n_ops=[0, 0, 3])

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        case["bad"] = [[rng.choice([-1, -1, 0, n, rng.randrange(n), rng.randrange(n), rng.randrange(n)]), rng.randrange(10 ** 6)] for _ in range(rng.choice([1, 2, 4, 8]))]
        case["foreign"] = rng.choice([None, None, [rng.randrange(n), rng.randrange(10 ** 6)]])
        case["taxi"] = rng.choice([1, 2, 2]) if engine == "py" and rng.random() < 0.3 else 0
        case["renamed"] = sorted(rng.sample(range(14), rng.choice([0, 1, 2, 5]))) if rng.random() < 0.3 else None
        case["step1"] = rng.random() < 0.3

    def start(self, ux, case):
        scn = case["scn"]
        W = build(ux, scn, case["engine"], case["rng"])
        taxi = None
        if case["taxi"]:
            from uxsim.TaxiHandler.TaxiHandler import TaxiHandler_nearest
            H = TaxiHandler_nearest(W)
            l = W.LINKS[0]
            cab = W.addVehicle(l.start_node, None, 0, mode="taxi")
            for _ in range(case["taxi"] - 1):
                W.addVehicle(l.start_node, None, 0, mode="taxi")
            H.add_trip_request(l.start_node.name, l.end_node.name, 0)
            H.add_trip_request(l.end_node.name, l.start_node.name, 30)
            taxi = (H, cab)
        return W, taxi

    def go(self, case, ctx, ux, O=None, bad=()):
        """One run; with mistakes and objects of the world O instead of names if given."""
        scn, engine = case["scn"], case["engine"]
        W, taxi = self.start(ux, case)
        n = tsize(scn)
        todo = sorted(bad)
        fo = case["foreign"]
        state = dict(i=0, f=False)

        def act(t):
            if taxi and 0 <= t < n:
                taxi[0].assign_trip_request_to_taxi()
            while state["i"] < len(todo) and todo[state["i"]][0] <= t:
                self.mistake(W, taxi, case, random.Random(todo[state["i"]][1]), t, ctx)
                state["i"] += 1
            if fo and t >= fo[0] and not state["f"]:
                state["f"] = True
                self.foreign(W, O, random.Random(fo[1]), ctx)

        act(-1)
        cuts = sorted({b[0] for b in case["bad"] if 0 < b[0] < n} | ({2, n // 2} if taxi and n > 3 else set()) | ({fo[0]} if fo else set()))
        for c in cuts:
            if c > (W.T if W.finalized else 0):
                drive(W, scn, upto=c, step1=case["step1"])
            act(c)
        drive(W, scn, step1=case["step1"])
        act(n)
        rec = dict(world=finger.world(W, engine), config=config(W, engine))
        if taxi:
            rec["taxi"] = finger.table(taxi[0].trips_to_pandas())
        return W, rec

    def mistake(self, W, taxi, case, r, t, ctx):
        engine = case["engine"]
        n = tsize(case["scn"])
        p, q = Mistakes(W, r, engine, case["scn"], taxi).pool()
        for _ in range(r.choice([1, 1, 3])):
            k = r.choice(sorted(p) + sorted(q))
            if taxi and r.random() < 0.4:
                k = r.choice([x for x in sorted(p) if x.startswith("taxi-")])
            where = "step %s (%s)" % (t, engine)
            a = (config(W, engine), requests(taxi), state_of(W, engine))
            if k in p:
                try:
                    res = p[k]()
                except Exception as e:
                    if type(e) in (AttributeError, KeyError, NameError, UnboundLocalError, IndexError):
                        fail("unclear", "%s: the mistaken call %s ended in %s: %s" % (where, k, type(e).__name__, e))
                else:
                    fail("accepted", "%s: the mistaken call %s was accepted and returned %r" % (where, k, res))
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    q[k]()
            same(a[0], config(W, engine), "changed", "%s: settings before / after the rejected call %s" % (where, k))
            same(a[1], requests(taxi), "changed", "%s: trip requests before / after the rejected call %s" % (where, k))
            same(a[2], state_of(W, engine), "changed", "%s: state before / after the rejected call %s" % (where, k))
            ctx.fault(k)
            ctx.probe(k)
            ctx.probe("mistake_before" if t < 0 or not W.finalized else "mistake_after" if t >= n else "mistake_during")

    def foreign(self, W, O, r, ctx):
        """An accepted call, in one of the twins with objects of another world in place of names."""
        l = r.choice(W.LINKS)
        o, d = l.start_node.name, l.end_node.name
        k = r.choice(["vehicle", "vehicle", "demand", "route"])
        N = (lambda x: x) if O is None else O.get_node
        L = (lambda x: x) if O is None else O.get_link
        t = (W.T + 2) * W.DELTAT if W.finalized else 10
        if k == "vehicle":
            v = W.addVehicle(N(o), N(d), t, links_prefer=[L(l.name)])
            if v.orig is not W.get_node(o) or v.dest is not W.get_node(d):
                fail("foreign", "a vehicle created with nodes of another world does not go from and to the nodes of its own")
        elif k == "demand":
            W.adddemand(N(o), N(d), t, t + 10 * W.DELTAT, volume=3 * W.DELTAN)
        else:
            v = W.addVehicle(o, d, t)
            v.enforce_route([L(l.name)])
            R = W.defRoute([L(l.name)])
            if list(R.links) != [l]:
                fail("foreign", "a route defined with links of another world consists of %s" % (R.links,))
        if O is not None:
            ctx.probe("foreign_objects")

    def run(self, case, ctx):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.all(case, ctx)

    def all(self, case, ctx):
        ux, scn, engine = ctx.ux, case["scn"], case["engine"]
        A, a = self.go(case, ctx, ux)
        O = oa = None
        if case["foreign"]:
            O = build(ux, dict(scn, ops=[]), engine)
            drive(O, dict(scn, ops=[]), upto=3)
            oa = (config(O, engine), finger.world(O, engine))
        B, b = self.go(case, ctx, ux, O, case["bad"])
        same(a, b, "differs", "the records without / with the rejected calls%s" % (" (and with objects of another world in place of names)" if O is not None else ""))
        if O is not None:
            same(oa, (config(O, engine), finger.world(O, engine)), "other-world", "the other world, whose nodes and links were passed to calls of this one, before / after")
        if case["taxi"]:
            ctx.probe("taxi_world")
        self.count(ctx, B, scn, engine, 2)
        if case["renamed"] is not None:
            self.renamed(ux, case, ctx)
        self.record(ctx, b)

    def renamed(self, ux, case, ctx):
        """Names that are used are replaced by new ones on request, and the new entities are full members of the world."""
        scn, engine = case["scn"], case["engine"]
        W = build(ux, dict(scn, ops=[], demands=[], vehicles=[]), engine)
        l = W.LINKS[0]
        nn, ln = len(W.NODES), len(W.LINKS)
        new = W.addNode(l.end_node.name, l.end_node.x + 7, l.end_node.y - 7, auto_rename=True)
        lk = W.addLink(l.name, l.start_node, new, 200, auto_rename=True)
        v = W.addVehicle(l.start_node, new, 0, name="a")
        v2 = W.addVehicle(l.start_node, new, 0, name="a", auto_rename=True)
        # names that the engine would give itself
        own = [W.addVehicle(l.start_node, new, 0, name=str(k)) for k in case["renamed"]]
        W.adddemand(l.start_node.name, new.name, 0, 10 * W.DELTAT, volume=5.5 * W.DELTAN)
        own += [W.addVehicle(l.start_node, new, 0) for _ in range(2)] + [v, v2]
        m = len(W.VEHICLES)
        own += [W.addVehicle(l.start_node, new, 0, name=x) for x in ("z", str(m + 1)) if x not in W.VEHICLES]
        for x in own:
            if W.VEHICLES.get(x.name) is not x:
                fail("renamed", "vehicle %s is not the one found under its name" % x.name)
        if len(W.NODES) != nn + 1 or len(W.LINKS) != ln + 1 or len(W.VEHICLES) != 5 + len(own) or len({x.id for x in W.VEHICLES.values()}) != 5 + len(own):
            fail("renamed", "adding renamed entities made %d nodes, %d links and %d vehicles out of %d, %d and 0, %d vehicles were added" % (len(W.NODES), len(W.LINKS), len(W.VEHICLES), nn, ln, 5 + len(own)))
        if W.get_node(new.name) is not new or W.get_link(lk.name) is not lk or W.VEHICLES.get(v2.name) is not v2 or W.VEHICLES.get("a") is not v:
            fail("renamed", "a renamed entity is not found under its new name")
        if (new.x, new.y) != (l.end_node.x + 7, l.end_node.y - 7) or lk.end_node is not new or lk.start_node is not l.start_node:
            fail("renamed", "a renamed entity has not the requested place")
        config(W, engine)
        drive(W, dict(scn, ops=[]))
        for x in W.VEHICLES.values():
            if x.dest is not new:
                fail("renamed", "vehicle %s goes to %s instead of the renamed node" % (x.name, x.dest.name))
            ls = [q for _, q in x.log_t_link if not isinstance(q, str)]
            if x.state == "end" and (not ls or ls[-1] is not lk):
                fail("renamed", "vehicle %s reached the renamed node by %s" % (x.name, [q.name for q in ls]))
        ctx.probe("renamed")


PROP = C26()
