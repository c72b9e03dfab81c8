"""C16: every taxi request is served exactly once, in order, by one taxi."""
import importlib, math, random
import numpy as np
from .. import finger, scen
from ..sim import SimRng
from ._lock import fail
from ._twin import TwinProp, build, drive, same, tsize, quiet

KINDS = ("TaxiHandler_random", "TaxiHandler_nearest", "TaxiHandler_nearest_matching_radious")


class Fleet:
    """One execution of a case: a world, its taxis and handler, and an observer called after every step."""

    def __init__(self, ctx, case, check=True):
        TH = importlib.import_module("uxsim.TaxiHandler")
        self.ctx, self.case, self.check = ctx, case, check
        scn = case["scn"]
        self.W = W = build(ctx.ux, scn, "py", case["rng"])
        self.n = tsize(scn)
        t = case["taxi"]
        self.taxis, self.plans = [], {}
        cls = getattr(TH, t["kind"])
        self.H = cls(W, t["radius"]) if t["kind"].endswith("radious") else cls(W)
        self.reqs = []
        self.events = sorted(enumerate(t["events"]), key=lambda e: e[1][0])
        self.ei = 0
        self.assigned, self.boarded, self.done = {}, {}, {}
        self.ready = {}                      # request -> step from which its next stop counts
        self.where = {}
        self.pref = None
        self.todo = {}
        self.add(0)
        W.user_function = self.step
        self.count = {}

    def probe(self, k, n=1):
        if self.check:
            self.ctx.probe(k, n)

    def add(self, t):
        """Taxis and requests that appear before step t."""
        W = self.W
        while self.ei < len(self.events) and self.events[self.ei][1][0] <= t:
            i, (_, kind, a) = self.events[self.ei]
            self.ei += 1
            if kind == "taxi":
                v = W.addVehicle(a["o"], a["dests"][0] if a.get("dests") else None, a["t"], mode="taxi", name="taxi%d" % i)
                if a.get("dests"):
                    v.add_dests(a["dests"][1:])
                    self.plans[v.name] = list(a["dests"])
                    self.todo[v.name] = list(a["dests"])
                    self.probe("planned_tour")
                self.taxis.append(v)
                if t > 0:
                    self.probe("taxi_added_later")
            elif kind == "send":
                # an idle taxi is sent somewhere
                if self.taxis:
                    v = self.taxis[a["k"] % len(self.taxis)]
                    if v.state == "run" and v.dest is None:
                        v.add_dest(a["d"] if not a["obj"] else W.get_node(a["d"]))
                        self.plans[v.name] = [a["d"]]
                        self.todo[v.name] = [a["d"]]
                        self.probe("sent")
            elif kind == "stop":
                # the tour of a taxi is extended, anywhere after its present destination
                if self.taxis:
                    v = self.taxis[a["k"] % len(self.taxis)]
                    if v.name in self.plans and v.dest is not None and not any(r.taxi is v and r.arrival_time is None for r, _, _, _ in self.reqs):
                        tour = [v.dest.name] + [x.name for x in v.dest_list]
                        at = a["at"] % (len(tour) + 1)
                        ds = [W.get_node(d) if a["obj"] else d for d in a["ds"]]
                        if at == 0:
                            at = len(tour)
                            new = tour + a["ds"]
                        else:
                            ds = ds[:1]
                            new = tour[:at] + a["ds"][:1] + tour[at:]
                        if not any(x == y for x, y in zip(new, new[1:])):
                            if len(ds) > 1:
                                v.add_dests(ds)
                            elif at == len(tour) and a["obj"]:
                                v.add_dest(ds[0])
                            else:
                                v.add_dest(ds[0], order=at - 1)
                            self.plans[v.name] = new
                            self.todo[v.name] = list(new)
                            self.probe("tour_changed")
            else:
                o, d = (W.get_node(a["o"]), W.get_node(a["d"])) if a["obj"] else (a["o"], a["d"])
                self.H.add_trip_request(o, d, a["t"], name=("r%d" % i) if a["named"] else None)
                r = self.H.trip_requests_all[-1]
                self.reqs.append((r, a["o"], a["d"], a["t"]))
                if a["o"] == a["d"]:
                    self.probe("round_trip")

    def at_stop(self, v):
        """Node at whose entrance the taxi stands at the end of the step, if any."""
        if v.state == "run" and v.link is not None and v.x == v.link.length:
            return v.link.end_node.name
        return None

    # -- called by the world after each step
    def step(self, W):
        T = W.T
        if self.check:
            self.observe(T)
        self.add(T + 1)
        if T % self.case["taxi"]["every"] == 0:
            self.dispatch(T)
        if self.check:
            self.pref = np.array(W.ROUTECHOICE.route_pref)

    def observe(self, T):
        W = self.W
        now = T * W.DELTAT
        for v in self.taxis:
            if v.state in ("end", "abort"):
                fail("stopped", "step %d: taxi %s stopped (%s)" % (T, v.name, v.state))
        for v in self.taxis:
            s = self.at_stop(v)
            td = self.todo.get(v.name)
            if s is not None and td and s == td[0]:
                td.pop(0)
                self.probe("tour_stop")
            if v.name in self.plans:
                want = td[0] if td else None
                got = v.dest.name if v.dest is not None else None
                # before being served a request a taxi on a tour heads for the next stop of its tour
                if td and got != want:
                    fail("tour", "step %d: taxi %s heads for %s, the next stop of its tour %s is %s" % (T, v.name, got, self.plans[v.name], want))
            if s is not None and v.dest is not None and self.pref is not None:
                # the next link chosen leads towards the destination, as far as the guidance knows a way
                out = list(v.link.end_node.outlinks.values())
                p = [self.pref[v.dest.id][l.id] for l in out]
                if max(p) > 0 and v.route_next_link in out and self.pref[v.dest.id][v.route_next_link.id] == 0:
                    fail("guidance", "step %d: taxi %s, heading for %s, chose link %s, which is on no recommended way" % (T, v.name, v.dest.name, v.route_next_link.name))
        for i, (r, o, d, t) in enumerate(self.reqs):
            v = self.assigned.get(i)
            if v is None:
                if r.taxi is not None or r.get_taxi_time is not None or r.arrival_time is not None:
                    fail("unassigned", "step %d: request %d was served without having been assigned" % (T, i))
                continue
            if r.taxi is not v:
                fail("reassigned", "step %d: request %d, assigned to %s, is now assigned to %s" % (T, i, v.name, r.taxi))
            s = self.at_stop(v)
            if i not in self.boarded:
                if r.get_taxi_time is not None:
                    if s != o:
                        fail("boarding", "step %d: the passenger of request %d boarded at %s, but taxi %s is not at %s (link %s, %s m before its end)" % (T, i, r.get_taxi_time, v.name, o, v.link, v.link.length - v.x))
                    if abs(r.get_taxi_time - now) > 1e-9:
                        fail("boarding-time", "step %d: request %d reports boarding at %s instead of %s" % (T, i, r.get_taxi_time, now))
                    self.boarded[i] = (T, r.get_taxi_time)
                    self.probe("boarded")
                elif s == o:
                    fail("not-boarded", "step %d: taxi %s is at %s, but the passenger of request %d, assigned to it before, did not board" % (T, v.name, o, i))
                if r.arrival_time is not None:
                    fail("alighting", "step %d: the passenger of request %d alighted in the step of boarding or before" % (T, i))
                continue
            if r.get_taxi_time != self.boarded[i][1]:
                fail("boarded-twice", "step %d: the boarding time of request %d changed from %s to %s" % (T, i, self.boarded[i][1], r.get_taxi_time))
            if i not in self.done:
                if r.arrival_time is not None:
                    if s != d:
                        fail("alighting", "step %d: the passenger of request %d alighted, but taxi %s is not at %s" % (T, i, v.name, d))
                    if abs(r.arrival_time - now) > 1e-9:
                        fail("alighting-time", "step %d: request %d reports arrival at %s instead of %s" % (T, i, r.arrival_time, now))
                    self.done[i] = r.arrival_time
                    self.probe("alighted")
                elif s == d:
                    fail("not-alighted", "step %d: taxi %s is at %s, but the passenger of request %d did not alight" % (T, v.name, d, i))
            elif r.arrival_time != self.done[i]:
                fail("alighted-twice", "step %d: the arrival time of request %d changed from %s to %s" % (T, i, self.done[i], r.arrival_time))
        self.where = {v.name: self.at_stop(v) for v in self.taxis}

    def dispatch(self, T):
        W, H = self.W, self.H
        if not self.check:
            H.assign_trip_request_to_taxi()
            return
        vacant = [v for v in W.VEHICLES.values() if v.mode == "taxi" and v.state == "run" and v.dest is None]
        open_ = [i for i in range(len(self.reqs)) if i not in self.assigned]
        xy = {v.name: v.get_xy_coords() for v in vacant}
        for v in vacant:
            l = v.link
            q = v.x / l.length
            x = (l.start_node.x + (l.end_node.x - l.start_node.x) * q, l.start_node.y + (l.end_node.y - l.start_node.y) * q)
            if abs(xy[v.name][0] - x[0]) + abs(xy[v.name][1] - x[1]) > 1e-6 * (1 + abs(x[0]) + abs(x[1])):
                fail("position", "step %d: taxi %s on link %s at %s m reports the coordinates %s instead of %s" % (T, v.name, l.name, v.x, xy[v.name], x))
        busy = {id(self.assigned[i]) for i in self.assigned if i not in self.done}
        H.assign_trip_request_to_taxi()
        free = list(vacant)
        kind = self.case["taxi"]["kind"]
        for i in open_:
            r, o, d, t = self.reqs[i]
            N = W.get_node(o)
            dist = {v.name: math.hypot(xy[v.name][0] - N.x, xy[v.name][1] - N.y) for v in free}
            ok = free if not kind.endswith("radious") else [v for v in free if dist[v.name] <= self.case["taxi"]["radius"]]
            edge = kind.endswith("radious") and any(abs(dist[v.name] - self.case["taxi"]["radius"]) < 1e-9 for v in free)
            v = r.taxi
            if v is None:
                if r not in H.trip_requests:
                    fail("lost", "step %d: request %d is neither assigned nor waiting any more" % (T, i))
                if t <= W.TIME and ok and not edge:
                    fail("not-assigned", "step %d: request %d (since %s) was not assigned although taxi %s was available" % (T, i, t, ok[0].name))
                continue
            if t > W.TIME:
                fail("too-early", "step %d: request %d was assigned %s s before its time" % (T, i, t - W.TIME))
            if v not in free:
                fail("not-vacant", "step %d: request %d was assigned to %s, which was not vacant (or was assigned another request in the same call)" % (T, i, v.name))
            if id(v) in busy:
                fail("not-vacant", "step %d: request %d was assigned to %s, which carries another one" % (T, i, v.name))
            if kind != KINDS[0] and dist[v.name] > min(dist.values()) + 1e-9:
                fail("not-nearest", "step %d: request %d was assigned to %s at distance %s, the nearest vacant taxi is at %s" % (T, i, v.name, dist[v.name], min(dist.values())))
            if kind.endswith("radious") and dist[v.name] > self.case["taxi"]["radius"] + 1e-9:
                fail("radius", "step %d: request %d was assigned to %s at distance %s, beyond the radius %s" % (T, i, v.name, dist[v.name], self.case["taxi"]["radius"]))
            if r in H.trip_requests:
                fail("still-open", "step %d: request %d was assigned but still waits for a taxi" % (T, i))
            if v.dest is None or v.dest.name != o:
                fail("destination", "step %d: taxi %s, assigned request %d, heads for %s instead of %s" % (T, v.name, i, v.dest, o))
            free.remove(v)
            self.assigned[i] = v
            self.probe("assigned")
        if len(open_) and not vacant:
            self.probe("no_vacant_taxi")

    def tables(self):
        H, W = self.H, self.W
        DN = W.DELTAN
        wait = [self.boarded[i][1] - t for i, (r, o, d, t) in enumerate(self.reqs) if i in self.boarded]
        inv = [self.done[i] - self.boarded[i][1] for i in range(len(self.reqs)) if i in self.done]
        trav = [self.done[i] - t for i, (r, o, d, t) in enumerate(self.reqs) if i in self.done]
        mean = lambda a: sum(a) / len(a) if a else 0
        want = dict(total_trips=len(self.reqs) * DN, completed_trips=len(inv) * DN, average_waiting_time=mean(wait), average_invehicle_time=mean(inv), average_travel_time=mean(trav))
        got = {k: finger._f(v) for k, v in H.basic_to_pandas().iloc[0].to_dict().items()}
        same(want, got, "statistics", "statistics recomputed / reported", 1e-9)
        df = H.trips_to_pandas()
        rows = []
        for i, (r, o, d, t) in enumerate(self.reqs):
            b, a = self.boarded.get(i, (None, None))[1], self.done.get(i)
            rows.append([o, d, t, b, a, a - t if a is not None else None, b - t if b is not None else None, self.assigned[i].name if i in self.assigned else None])
        cols = ["orig", "dest", "depart_time", "get_taxi_time", "arrival_time", "travel_time", "waiting_time", "used_taxi"]
        got = [[None if (x is None or x != x) else (x if isinstance(x, str) else finger._f(x)) for x in r] for r in df[cols].values.tolist()]
        same(rows, got, "statistics", "trips recomputed / reported", 1e-9)
        nt = sum(1 for v in W.VEHICLES.values() if v.mode == "taxi") * DN
        if H.number_of_taxis != nt:
            fail("statistics", "number of taxis %s instead of %s" % (H.number_of_taxis, nt))
        H.print_stats() if nt else None
        names = {}
        for r, o, d, t in self.reqs:
            if r.name in names:
                fail("names", "two requests are named %r" % (r.name,))
            names[r.name] = r
            if H.get_trip(r.name) is not r or H.get_trip(r) is not r:
                fail("names", "get_trip(%r) returns another request" % (r.name,))

    def record(self):
        return dict(world=finger.world(self.W, "py"), trips=[[r.name, r.get_taxi_time, r.arrival_time, r.taxi.name if r.taxi else None] for r, o, d, t in self.reqs])


class C16(TwinProp):
    id = "C16"
    quick_n, thorough_n = 900, 60000
    cpp_share = 0
    real = ["uxsim/TaxiHandler/TaxiHandler.py", "uxsim/uxsim.py"]
    rule = ("one evaluation is one seeded strongly connected network with background traffic, taxis and requests appearing at seeded times and one of the supplied dispatchers called at a seeded interval; every dispatch, boarding and "
            "alighting is checked in the step it happens, statistics are recomputed, and a second run divided differently, with the process-wide random numbers and another world's handler interfering, must be identical")
    want_probes = ["assigned", "boarded", "alighted", "no_vacant_taxi", "round_trip", "planned_tour", "tour_stop", "tour_changed", "sent", "taxi_added_later", "mid_run_closure"]
    assumptions = ["strongly connected networks of 2-13 nodes (idle taxis meet no dead end)", "the supplied dispatchers (random, nearest, nearest within a radius) and taxis with planned tours; Python engine only (taxis are not supported by the compiled one)"]

    def make_opts(self, rng, engine):
        return dict(n_ops=[0, 0, 3], short=0, platoons=rng.choice([5, 20, 60]), op_kinds=["cap_in", "cap_out", "speed", "phase"])

    def world_over(self, rng, engine):
        o = dict(rcp="heterogeneous_DUO" if rng.random() < 0.2 else "homogeneous_DUO")
        if rng.random() < 0.3:
            o["hard"] = True
        return o

    def tweak(self, rng, scn, engine, case):
        have = {(l["a"], l["b"]) for l in scn["links"]}
        for l in list(scn["links"]):
            if (l["b"], l["a"]) not in have:
                have.add((l["b"], l["a"]))
                scn["links"].append({k: v for k, v in dict(l, name=l["name"] + "_back", a=l["b"], b=l["a"]).items() if k not in ("sg", "toll")})
        for v in scn["vehicles"]:
            v.pop("mode", None)
        n = tsize(scn)
        dt = scn["world"]["deltan"] * scn["world"]["reaction_time"]
        names = [x["name"] for x in scn["nodes"]]
        # stay with the nodes that can reach each other
        r0 = scen.reach(scn, names[0])
        names = [x for x in names if x in r0 or x == names[0]]
        if len(names) < 2:
            names = names * 2
        ev = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            s = rng.choice([0, 0, 0, rng.randrange(max(1, n // 2))])
            a = dict(o=rng.choice(names), t=max(s, rng.randrange(max(1, n // 3))) * dt)
            if rng.random() < 0.2:
                ds = [rng.choice(names) for _ in range(rng.randint(1, 4))]
                # a stop twice in a row would be served where the taxi stands
                a["dests"] = [d for i, d in enumerate(ds) if i == 0 or d != ds[i - 1]]
            ev.append([s, "taxi", a])
        for _ in range(rng.choice([1, 4, 10, 25])):
            s = rng.choice([0, 0, rng.randrange(max(1, int(n * 0.7)))])
            o = rng.choice(names)
            d = o if rng.random() < 0.05 else rng.choice(names)
            ev.append([s, "req", dict(o=o, d=d, t=max(s, rng.randrange(max(1, int(n * 0.7)))) * dt + rng.choice([0, 0, 0.37 * dt]), obj=rng.random() < 0.5, named=rng.random() < 0.3)])
        for _ in range(rng.choice([0, 0, 2, 6])):
            ev.append([rng.randrange(1, max(2, n)), "send", dict(k=rng.randrange(8), d=rng.choice(names), obj=rng.random() < 0.3)])
        for _ in range(rng.choice([0, 2, 5, 10])):
            ev.append([rng.choice([0, rng.randrange(max(1, n))]), "stop", dict(k=rng.randrange(8), at=rng.randrange(12), ds=[rng.choice(names) for _ in range(rng.choice([1, 1, 3]))], obj=rng.random() < 0.4)])
        case["taxi"] = dict(kind=rng.choice(KINDS), radius=rng.choice([100, 500, 1500]), every=rng.choice([1, 1, 2, 5]), events=ev)
        case["plan"] = [[rng.choice(["until", "dur", "dur2"]), rng.choice([1, 2, 5, 1000]), rng.random() * 0.9] for _ in range(rng.randint(1, 3))]
        case["noise"] = rng.randrange(10 ** 6)

    def run(self, case, ctx):
        with quiet():
            self.go(case, ctx)

    def go(self, case, ctx):
        scn = case["scn"]
        F = Fleet(ctx, case)
        drive(F.W, scn, step1=True)
        F.tables()
        if scn["ops"]:
            ctx.probe("mid_run_closure")
        ref = F.record()
        # again, divided differently, with the random numbers of the process and another handler in use
        G = Fleet(ctx, case, check=False)
        r = random.Random(case["noise"])
        O = Fleet(ctx, dict(case, rng=None), check=False)
        drive(O.W, scn, upto=1 + r.randrange(10))

        def pause(t):
            random.seed(r.random())
            if r.random() < 0.3 and O.W.T < O.n:
                drive(O.W, scn, upto=O.W.T + 1)
        drive(G.W, scn, plan=case["plan"], pause=pause)
        same(ref, G.record(), "repeat", "the record of a run in single steps / divided differently while other random numbers are drawn")
        self.count(ctx, F.W, scn, "py", 2)
        self.record(ctx, ref)


PROP = C16()
