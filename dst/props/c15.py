"""C15: demand is created and released as requested."""
from .. import scen
from ..sim import Sim
from ._lock import LockProp, fail, patch_vehicles


class C15(LockProp):
    id = "C15"
    quick_n = 3000
    want_probes = ["def_od", "def_p2p", "def_a2a", "def_a2a2", "def_n2n", "def_n2n2", "both_engines", "held_at_origin", "generated", "veh"]
    assumptions = LockProp.assumptions + ["requested volumes are met within one platoon plus what one timestep of the requested flow carries, as periods are rounded to timesteps",
                                          "the pairwise forms (area2area, nodes2nodes) within that per origin-destination pair"]
    opts = dict(p_area=0, n_ops=[0, 3, 6], op_kinds=["close", "cap_in", "veh", "veh", "speed"], p_unreach=0)

    def tweak(self, rng, scn, engine):
        w = scn["world"]
        dt = w["deltan"] * w["reaction_time"]
        T = w["tmax"]
        xy = {n["name"]: (n["x"], n["y"]) for n in scn["nodes"]}
        srcs = sorted(n for n, ls in scen.adjacency(scn).items() if ls)
        dsts = sorted({l["b"] for l in scn["links"]})
        if rng.random() < 0.1:
            scn["world"]["tmax"] = None
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.choice(["p2p", "a2a", "a2a2", "n2n", "n2n2", "od"])
            t0 = rng.choice([0, round(rng.random() * T * 0.5, 3), dt * rng.randint(0, 5)])
            t1 = round(t0 + T * rng.choice([0.05, 0.2, 0.5]), 3)
            d = dict(kind=k, t0=t0, t1=t1)
            vol = w["deltan"] * rng.choice([1, 3, 7, 12.5, 20])
            if rng.random() < 0.5:
                d["volume"] = vol
            else:
                d["flow"] = round(vol / (t1 - t0), 6)
            if rng.random() < 0.4:
                d["attr"] = rng.choice(["x", 3])
            o = rng.choice(srcs)
            r = sorted(x for x in scen.reach(scn, o) if x != o and x in dsts)
            if not r:
                continue
            if k == "od":
                d.update(o=o, d=rng.choice(r))
            elif k == "p2p":
                x = rng.choice(r)
                d["xy"] = [xy[o][0] + rng.choice([0, 1]), xy[o][1], xy[x][0], xy[x][1]]
                if rng.random() < 0.6:
                    # points in between the nodes: the nearest one is decided by the distance alone
                    for i, c in ((0, o), (2, x)):
                        b = xy[rng.choice(list(xy))]
                        f = rng.random() * 0.5
                        g = rng.choice([0, 0, rng.random() - 0.5])
                        d["xy"][i] = round(xy[c][0] + f * (b[0] - xy[c][0]) - g * (b[1] - xy[c][1]), 2)
                        d["xy"][i + 1] = round(xy[c][1] + f * (b[1] - xy[c][1]) + g * (b[0] - xy[c][0]), 2)
                a, b = self.near(scn, *d["xy"][:2]), self.near(scn, *d["xy"][2:])
                if a == b or a not in srcs or b not in dsts or b not in scen.reach(scn, a) or self.tied(scn, *d["xy"][:2]) or self.tied(scn, *d["xy"][2:]):
                    continue
            elif k in ("n2n", "n2n2"):
                os_ = rng.sample(srcs, min(len(srcs), rng.choice([1, 2, 3])))
                ds = rng.sample(dsts, min(len(dsts), rng.choice([2, 3])))
                if k == "n2n2" and any(not [y for y in ds if y != x] for x in os_):
                    continue
                if k == "n2n":
                    ds = [x for x in ds if x not in os_]
                    if not ds:
                        continue
                d.update(os=os_, ds=ds)
            else:
                x = rng.choice(r)
                d["xyr"] = [xy[o][0], xy[o][1], rng.choice([1, 400, 900]), xy[x][0], xy[x][1], rng.choice([1, 400, 900])]
                os_, ds = self.area(scn, d["xyr"])
                if k == "a2a" and set(os_) & set(ds):
                    continue
                if any(not [y for y in ds if y != z] for z in os_):
                    continue
            scn["demands"].append(d)
        # unreachable origin-destination pairs of the random forms may leave vehicles circling; that is not this property
        if scn["world"]["tmax"] is None:
            scn["world"]["tmax"] = T

    @staticmethod
    def near(scn, x, y):
        return min(scn["nodes"], key=lambda n: (n["x"] - x) ** 2 + (n["y"] - y) ** 2)["name"]

    @staticmethod
    def tied(scn, x, y):
        ds = sorted(((n["x"] - x) ** 2 + (n["y"] - y) ** 2) ** 0.5 for n in scn["nodes"])
        return len(ds) > 1 and ds[1] - ds[0] < 1e-6 * (1 + ds[1])

    @staticmethod
    def area(scn, a):
        def inside(x, y, r):
            return [n["name"] for n in scn["nodes"] if (n["x"] - x) ** 2 + (n["y"] - y) ** 2 < r ** 2]
        src = {l["a"] for l in scn["links"]}
        dst = {l["b"] for l in scn["links"]}
        os_ = [n for n in inside(a[0], a[1], a[2]) if n in src] or [C15.near(scn, a[0], a[1])]
        ds = [n for n in inside(a[3], a[4], a[5]) if n in dst] or [C15.near(scn, a[3], a[4])]
        return os_, ds

    def created(self, ux, scn, engine, ctx):
        """Builds the demand definition by definition; returns the world and the vehicles each definition made."""
        empty = dict(scn, demands=[], vehicles=[])
        W = scen.build_world(ux, empty, engine)
        made = []
        for d in scn["demands"]:
            n0 = len(W.VEHICLES)
            scen.add_demand(W, d)
            made.append([self.look(v) for v in list(W.VEHICLES.values())[n0:]])
        for v in scn["vehicles"]:
            n0 = len(W.VEHICLES)
            scen.add_vehicle(W, v)
            x = list(W.VEHICLES.values())[n0:]
            if len(x) != 1 or x[0].orig.name != v["o"] or x[0].dest.name != v["d"] or x[0].departure_time != int(v["t"] / W.DELTAT):
                fail("vehicle", "addVehicle(%s, %s, %s) created %s" % (v["o"], v["d"], v["t"], [self.look(y) for y in x]))
            if not -1e-9 <= v["t"] - x[0].departure_time_in_second < W.DELTAT:
                fail("seconds", "addVehicle(%s, %s, %s) departs at %s s by its departure_time_in_second" % (v["o"], v["d"], v["t"], x[0].departure_time_in_second))
        for v in W.VEHICLES.values():
            if not -1e-9 <= v.departure_time_in_second / W.DELTAT - v.departure_time < 1 + 1e-9:
                fail("seconds", "vehicle %s: departure step %s, departure time %s s, timestep %s s" % (v.name, v.departure_time, v.departure_time_in_second, W.DELTAT))
        return W, made

    @staticmethod
    def look(v):
        return (v.orig.name, v.dest.name, v.departure_time, v.attribute)

    def check(self, scn, W, d, vs, ctx, engine):
        DN, DT = W.DELTAN, W.DELTAT
        t0, t1 = d["t0"], d["t1"]
        k = d["kind"]
        ctx.probe("def_" + k)
        vol = d["volume"] if "volume" in d else d["flow"] * (t1 - t0)
        who = "%s demand (%s engine) of %.4f vehicles in %s-%s" % (k, engine, vol, t0, t1)
        if k == "od":
            os_, ds = [d["o"]], [d["d"]]
        elif k == "p2p":
            os_, ds = [self.near(scn, *d["xy"][:2])], [self.near(scn, *d["xy"][2:])]
        elif k in ("n2n", "n2n2"):
            src, dst = {l["a"] for l in scn["links"]}, {l["b"] for l in scn["links"]}
            os_, ds = [x for x in d["os"] if x in src], [x for x in d["ds"] if x in dst]
        else:
            os_, ds = self.area(scn, d["xyr"])
        pairs = {}
        for o, e, t, a in vs:
            if o not in os_ or e not in ds or o == e:
                fail("endpoints", "%s created a vehicle from %s to %s, requested are %s to %s" % (who, o, e, os_, ds))
            if a != d.get("attr"):
                fail("attribute", "%s created a vehicle with attribute %r instead of %r" % (who, a, d.get("attr")))
            if not (int(t0 / DT) <= t <= int(t1 / DT)):
                fail("period", "%s created a vehicle departing in step %s, i.e. at %s s" % (who, t, t * DT))
            pairs.setdefault((o, e) if k in ("a2a", "n2n") else None, []).append(t)
        groups = [(None, pairs.get(None, []), vol)] if k not in ("a2a", "n2n") else [((o, e), pairs.get((o, e), []), vol / (len(os_) * len(ds))) for o in os_ for e in ds]
        for g, ts, v in groups:
            rate = v / (t1 - t0)
            tol = DN + rate * DT + 1e-6
            if abs(len(ts) * DN - v) > tol:
                fail("volume", "%s created %s vehicles%s, requested were %.4f" % (who, len(ts) * DN, "" if g is None else " from %s to %s" % g, v))
            ts = sorted(ts)
            for i, t in enumerate(ts):
                # vehicles up to and including this one against the volume due by then
                due = rate * ((t + 1) * DT - t0)
                if k in ("a2a2", "n2n2"):
                    tol2 = 2 * DN + rate * DT * 2 + 1e-6
                else:
                    tol2 = DN + rate * DT * 2 + 1e-6
                if abs((i + 1) * DN - min(due, v)) > tol2 + 1e-6:
                    fail("spread", "%s has created %s vehicles%s up to step %d, an even spread gives %.3f" % (who, (i + 1) * DN, "" if g is None else " from %s to %s" % g, t, due))

    def run(self, case, ctx):
        scn = case["scn"]
        W, made = self.created(ctx.ux, scn, case["engine"], ctx)
        for d, vs in zip(scn["demands"], made):
            self.check(scn, W, d, vs, ctx, case["engine"])
        other = "cpp" if case["engine"] == "py" else "py"
        if scn["world"].get("rcp") == "homogeneous_DUO":
            W2, made2 = self.created(ctx.ux, scn, other, ctx)
            ctx.probe("both_engines")
            for d, a, b in zip(scn["demands"], made, made2):
                self.check(scn, W2, d, b, ctx, other)
                if d["kind"] in ("a2a2", "n2n2"):
                    a, b = [(x[2], x[3]) for x in a], [(x[2], x[3]) for x in b]
                if a != b:
                    x = [(p, q) for p, q in zip(a, b) if p != q][:3]
                    fail("engines", "the %s demand %s creates other vehicles in the two engines: %d and %d vehicles, first differences %s" % (d["kind"], {q: d[q] for q in d if q not in ("kind",)}, len(a), len(b), x))
        s = Sim(ctx.ux, scn, case["engine"], rng=case.get("rng"), world=W, chunk=case.get("chunk", 0))
        patch_vehicles(s, scn)
        ctx.probe("engine_" + case["engine"])
        s.hooks = self.hooks(s, case, ctx)
        s.run(self.kinds())
        ctx.take(s)

    def hooks(self, s, case, ctx):
        prev, queue, seen = {}, {}, set()

        def hk(sim, obs):
            T = sim.T
            left = {}
            for nm, o in obs.veh.items():
                p = prev.get(nm, "home")
                st = o[0]
                v = sim.W.VEHICLES[nm]
                if p == "home":
                    if st != "home" and T < v.departure_time:
                        fail("early", "step %d: vehicle %s left before its departure step %s" % (T, nm, v.departure_time))
                    if st == "home" and T >= v.departure_time:
                        fail("late", "step %d: vehicle %s with departure step %s has not departed" % (T, nm, v.departure_time))
                    if st == "wait":
                        queue.setdefault(v.orig.name, []).append((T, nm))
                if p == "wait" and st != "wait":
                    left.setdefault(v.orig.name, []).append(nm)
                prev[nm] = st
            for o, ns in left.items():
                q = queue[o]
                head = {n: t for t, n in q}
                rest = [t for t, n in q if n not in ns]
                if rest and max(head[n] for n in ns) > min(rest):
                    fail("queue-order", "step %d: at %s vehicles %s entered the network before vehicles that had been waiting longer" % (T, o, ns))
                queue[o] = [x for x in q if x[1] not in ns]
        return [hk]


PROP = C15()
