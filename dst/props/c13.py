"""C13: reports equal what happened, and reading them changes nothing."""
import math, os, random, shutil, tempfile, warnings
from .. import finger, reports, scen
from ._lock import fail
from ._twin import TwinProp, build, drive, same, tsize, quiet, ENDTABLES

REPORTS = ("basic", "od", "link", "trip", "cumulative", "vehicles", "state", "mfd", "gps", "areas2areas", "area", "groups", "stats", "vehicle_methods", "link_methods", "print", "speed")
DRAW = ("network", "network_average", "time_space_diagram_traj", "time_space_diagram_density", "time_space_diagram_traj_links", "cumulative_curves", "macroscopic_fundamental_diagram",
        "plot_vehicle_log", "plot_vehicles_log", "network_pillow", "show_simulation_progress", "output_data", "network_anim", "network_fancy")


def close(a, b, tol=1e-7):
    a = -1 if a is None else a
    if a == b:
        return True
    if isinstance(a, str) or isinstance(b, str):
        return False
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def rows_of(df, key):
    """{key: {column: value}}; the rows must be unique in the key."""
    out = {}
    for r in df.to_dict("records"):
        k = tuple(r[c] for c in key) if isinstance(key, tuple) else r[key]
        if k in out:
            fail("report", "two rows for %s" % (k,))
        out[k] = r
    return out


def compare(name, got, exp, when):
    if set(got) != set(exp):
        fail("report", "%s, %s has rows %s beyond and lacks rows %s of what happened" % (when, name, sorted(map(str, set(got) - set(exp)))[:5], sorted(map(str, set(exp) - set(got)))[:5]))
    for k, e in exp.items():
        for c, x in e.items():
            if c.startswith("_"):
                continue
            if not close(got[k][c], x):
                fail("report", "%s, %s says %s of %s is %s; the movements give %s" % (when, name, c, k, got[k][c], x))


class C13(TwinProp):
    id = "C13"
    quick_n, thorough_n = 700, 40000
    rule = ("one evaluation is one seeded scenario run twice, once undisturbed and once with every kind of report (tables, statistics, vehicle and link queries, in some runs drawings) read between random steps; "
            "the final records must agree exactly, and every table read at any time is compared with a recomputation from the observed movements")
    want_probes = ["read_" + r for r in REPORTS] + ["draw_" + d for d in DRAW] + ["logs_checked", "sparse_logs", "read_first_step", "two_reads"]
    opts = dict(n_ops=[0, 2, 6])

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        reads = []
        if engine == "py" and rng.random() < 0.12:
            scn["world"]["log_interval"] = rng.choice([2, 3, 7])
        for _ in range(rng.choice([1, 2, 2, 4, 8])):
            t = rng.choice([0, 1, 2, rng.randrange(n), rng.randrange(n), rng.randrange(n)])
            ks = list(REPORTS) if rng.random() < 0.3 else rng.sample(REPORTS, rng.choice([1, 2, 4, 8]))
            rng.shuffle(ks)
            for k in ks:
                reads.append([min(t, n - 1), k, rng.randrange(10 ** 6)])
        case["draw"] = False
        if rng.random() < 0.06:
            case["draw"] = True
            for k in rng.sample(DRAW[:-2], rng.choice([1, 2, 3])) + (rng.sample(DRAW[-2:], 1) if rng.random() < 0.5 else []):
                reads.append([rng.choice([0, rng.randrange(n), rng.randrange(n)]), "draw:" + k, rng.randrange(10 ** 6)])
        reads.sort(key=lambda r: r[0])
        case["reads"] = reads

    def shrink(self, case):
        yield from TwinProp.shrink(self, case)
        r = case["reads"]
        if len(r) > 1:
            yield dict(case, reads=r[:len(r) // 2])
            yield dict(case, reads=r[len(r) // 2:])
            for i in range(min(len(r), 12)):
                yield dict(case, reads=r[:i] + r[i + 1:])

    # ------------------------------------------------------------------ oracles
    def check(self, W, what, z, case, ctx, when, seen):
        a = W.analyzer
        eng, scn = case["engine"], case["scn"]
        full = scn["world"].get("log_interval", 1) == 1
        r = random.Random(z)
        started = W.finalized
        ctx.probe("read_" + what)
        if what == "basic":
            df = a.basic_to_pandas()
            if len(df) != 1:
                fail("report", "%s, the basic table has %d rows" % (when, len(df)))
            e = reports.basic(W)
            compare("the basic table", {"": df.to_dict("records")[0]}, {"": e}, when)
            if not close(a.total_distance_traveled, e["_distance"]):
                fail("report", "%s, total_distance_traveled is %s; the movements give %s" % (when, a.total_distance_traveled, e["_distance"]))
            for k, c in (("trip_all", "total_trips"), ("trip_completed", "completed_trips"), ("total_travel_time", "total_travel_time"), ("average_delay", "average_delay")):
                if not close(getattr(a, k), e[c]):
                    fail("report", "%s, analyzer.%s is %s; the movements give %s" % (when, k, getattr(a, k), e[c]))
        elif what == "od":
            compare("the OD table", rows_of(a.od_to_pandas(), ("orig", "dest")), reports.od(W), when)
        elif what == "link":
            if started:
                compare("the link table", rows_of(a.link_to_pandas(), "link"), reports.links(W), when)
        elif what == "trip":
            e = {}
            for n, v in W.VEHICLES.items():
                t = reports.travel_time(W, v)
                q = dict(orig=v.orig.name, dest=v.dest.name if v.dest is not None else None, departure_time=v.departure_time * W.DELTAT, travel_time=-1 if t is None else t, distance_traveled=reports.distance(v))
                if full:
                    sp = [x for x in v.log_v if x != -1]
                    if sp:
                        q["average_speed"] = sum(sp) / len(sp)
                e[n] = q
            got = rows_of(a.vehicle_trip_to_pandas(), "name")
            for n, q in got.items():
                if q["dest"] is None or q["dest"] != q["dest"]:
                    q["dest"] = None
                v = W.VEHICLES.get(n)
                if v is not None and q["final_state"] != v.state and q["final_state"] not in [str(x) for x in v.log_state[-1:]]:
                    fail("report", "%s, the trip table says vehicle %s is in state %s, it is in state %s" % (when, n, q["final_state"], v.state))
            for n, q in e.items():
                if q["dest"] is None:
                    if got.get(n) and got[n]["dest"] is not None:
                        fail("report", "%s, the trip table names a destination of %s, which has none" % (when, n))
                    del q["dest"]
            compare("the trip table", got, e, when)
        elif what == "cumulative":
            got = a.link_cumulative_to_pandas()
            want = {}
            for l in W.LINKS:
                n = min(W.TSIZE, len(l.cum_arrival)) if started else 0
                for i in range(n):
                    want[l.name, round(i * W.DELTAT, 6)] = (l.cum_arrival[i], l.cum_departure[i], l.traveltime_actual[i], l.traveltime_instant[i])
            if started:
                if len(got) != len(want):
                    fail("report", "%s, the cumulative table has %d rows instead of %d" % (when, len(got), len(want)))
                for ln, t, A, D, ta, ti in got.itertuples(index=False):
                    if (ln, round(t, 6)) not in want or not all(close(p, q) for p, q in zip((A, D, ta, ti), want[ln, round(t, 6)])):
                        fail("report", "%s, the cumulative table says %s of link %s at %s; the curves are %s" % (when, (A, D, ta, ti), ln, t, want.get((ln, round(t, 6)))))
        elif what == "vehicles":
            got = list(a.vehicles_to_pandas().itertuples(index=False))
            want = []
            for v in W.VEHICLES.values():
                for i in range(len(v.log_t)):
                    st = str(v.log_state[i])
                    if st in ("wait", "run", "end", "abort"):
                        l = v.log_link[i]
                        ln = l.name if hasattr(l, "start_node") else {"wait": "waiting_at_origin_node", "abort": "trip_aborted"}.get(st, "trip_end")
                        want.append((v.name, W.DELTAN, v.orig.name, v.dest.name if v.dest is not None else None, v.log_t[i], ln, v.log_x[i], v.log_s[i], v.log_v[i]))
            if len(got) != len(want):
                fail("report", "%s, the vehicle table has %d rows, there are %d samples" % (when, len(got), len(want)))
            for g, w in zip(got, want):
                if not all(close(p, q) if q is not None else (p is None or p != p) for p, q in zip(g, w)):
                    fail("report", "%s, the vehicle table has the row %s for the sample %s" % (when, tuple(g), w))
        elif what in ("state", "mfd"):
            if full and started:
                self.check_state(W, what, r, when, scn)
        elif what == "gps":
            got = list(a.gps_like_log_to_pandas().itertuples(index=False))
            want = []
            for v in W.VEHICLES.values():
                for t, l, x, s in zip(v.log_t, v.log_link, v.log_x, v.log_v):
                    if hasattr(l, "start_node"):
                        A, B = l.start_node, l.end_node
                        want.append((v.name, t, A.x + (B.x - A.x) * x / l.length, A.y + (B.y - A.y) * x / l.length, s))
            if len(got) != len(want):
                fail("report", "%s, the GPS-like table has %d rows, there are %d samples on links" % (when, len(got), len(want)))
            for g, w in zip(got, want):
                if not all(close(p, q) for p, q in zip(g, w)):
                    fail("report", "%s, the GPS-like table has the row %s for %s" % (when, tuple(g), w))
        elif what == "areas2areas":
            self.check_areas2areas(W, r, when)
        elif what == "area":
            if started and full:
                self.check_area(W, r, when)
        elif what == "groups":
            self.check_groups(W, r, when)
        elif what == "vehicle_methods":
            self.check_vehicles(W, r, when, seen, eng)
        elif what == "link_methods":
            if started:
                for l in W.LINKS[:4]:
                    t = r.random() * W.TMAX
                    l.arrival_count(t), l.departure_count(t), l.num_vehicles_t(t), l.instant_travel_time(t), l.actual_travel_time(t), l.average_speed(t), l.average_flow(t), l.average_density(t)
                    l.average_travel_time_between(0, t + 1), l.inflow_between(0, t + 1), l.speed, l.density, l.flow, l.num_vehicles, l.num_vehicles_queue, l.get_toll(t)
                    repr(l)
        elif what == "print":
            with quiet():
                a.basic_analysis()
                a.print_simple_stats(force_print=True)
                if started:
                    W.simulation_terminated() if False else None
                a.compute_accurate_traj()
        elif what == "stats":
            finger.stats(W)
            finger.world(W, eng, guide=False)
            if started:
                a.compute_edie_state()
        elif what == "speed":
            if eng == "py" and full:
                z = [float(x) if str(st) == "run" else 0.0 for v in W.VEHICLES.values() for x, st in zip(v.log_v, v.log_state) if str(st) in ("run", "wait")]
                m = sum(z) / len(z) if z else 0
                if not close(a.average_speed, m):
                    fail("report", "%s, average_speed is %s; the mean over all samples is %s" % (when, a.average_speed, m))

    def check_state(self, W, what, r, when, scn):
        a = W.analyzer
        ed = reports.edie(W)
        DN = W.DELTAN
        if what == "state":
            got = a.link_traffic_state_to_pandas()
            i = 0
            rec = list(got.itertuples(index=False))
            n = sum(int(W.TMAX / l.edie_dt) * int(l.length / l.edie_dx) for l in W.LINKS)
            if len(rec) != n:
                fail("report", "%s, the traffic state table has %d rows instead of %d" % (when, len(rec), n))
            for l in W.LINKS:
                tn, dn, bad = ed[l.name]
                for it in range(int(W.TMAX / l.edie_dt)):
                    for ix in range(int(l.length / l.edie_dx)):
                        ln, t, x, dt, dx, q, k, v = rec[i]
                        i += 1
                        if ln != l.name or not close(t, it * dt) or not close(x, ix * dx) or not close(dt, l.edie_dt) or not close(dx, l.edie_dx):
                            fail("report", "%s, the traffic state table has a row for %s where that of link %s, cell %s is due" % (when, (ln, t, x), l.name, (it, ix)))
                        if (it, ix) in bad or (it, None) in bad:
                            continue
                        ek, eq = tn[it][ix] * DN / dt / dx, dn[it][ix] * DN / dt / dx
                        if abs(k - ek) > 1e-7 or abs(q - eq) > 1e-7:
                            fail("report", "%s, density and flow of link %s in cell %s are %s, %s; the trajectories give %s, %s" % (when, l.name, (t, x), k, q, ek, eq))
                        ev = eq / ek if ek > 1e-9 else None
                        if ev is not None and not close(v, ev, 1e-5):
                            fail("report", "%s, the speed of link %s in cell %s is %s; the trajectories give %s" % (when, l.name, (t, x), v, ev))
                        if tn[it][ix] == 0 and not close(v, l.u):
                            fail("report", "%s, the speed of the empty cell %s of link %s is %s instead of the free-flow speed" % (when, (t, x), l.name, v))
        else:
            if any(l.edie_dt != W.EULAR_DT for l in W.LINKS):
                return
            sel = W.LINKS if r.random() < 0.5 else r.sample(W.LINKS, r.randint(1, len(W.LINKS)))
            if sel is not W.LINKS and r.random() < 0.5:
                arg = [l.name for l in sel]
            else:
                arg = None if sel is W.LINKS and r.random() < 0.5 else list(sel)
            got = list(a.mfd_to_pandas(arg).itertuples(index=False))
            n = int(W.TMAX / W.EULAR_DT)
            if len(got) != n:
                fail("report", "%s, the MFD table has %d rows instead of %d" % (when, len(got), n))
            area = sum(l.length for l in sel) * W.EULAR_DT
            for i, (t, k, q) in enumerate(got):
                if any((b[0] == i) for l in sel for b in ed[l.name][2]):
                    continue
                ek, eq = sum(sum(ed[l.name][0][i]) for l in sel) * DN / area, sum(sum(ed[l.name][1][i]) for l in sel) * DN / area
                if not close(t, i * W.EULAR_DT) or abs(k - ek) > 1e-7 or abs(q - eq) > 1e-7:
                    fail("report", "%s, the MFD table has %s in interval %d; the trajectories give density %s, flow %s" % (when, (t, k, q), i, ek, eq))

    def areas(self, W, r):
        out = []
        for _ in range(r.randint(1, 4)):
            ns = r.sample(W.NODES, r.randint(1, min(4, len(W.NODES))))
            out.append([n if r.random() < 0.5 else n.name for n in ns])
        return out

    def check_areas2areas(self, W, r, when):
        areas = self.areas(W, r)
        names = None if r.random() < 0.4 else ["a%d" % i for i in range(len(areas))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = list(W.analyzer.areas2areas_to_pandas(areas, names).to_dict("records"))
        o = reports.od(W)
        sets = [[n if isinstance(n, str) else n.name for n in ar] for ar in areas]
        nm = names or ["area %d including %s" % (i, s[0]) for i, s in enumerate(sets)]
        i = 0
        for p, A in enumerate(sets):
            for q, B in enumerate(sets):
                rs = [x for (a, b), x in o.items() if a in A and b in B]
                n = sum(x["total_trips"] for x in rs)
                if not n:
                    continue
                if i >= len(got):
                    fail("report", "%s, the area OD table lacks the row %s to %s" % (when, nm[p], nm[q]))
                g = got[i]
                i += 1
                c = sum(x["completed_trips"] for x in rs)
                e = dict(origin_area=nm[p], destination_area=nm[q], total_trips=n, completed_trips=c)
                if c:
                    e["average_travel_time"] = sum(x["completed_trips"] * x["average_travel_time"] for x in rs if x["completed_trips"]) / c
                    e["average_free_travel_time"] = sum(x["completed_trips"] * x["free_travel_time"] for x in rs if x["completed_trips"]) / c
                    e["average_distance_traveled"] = sum(x["total_trips"] * x["average_distance_traveled_per_veh"] for x in rs) / n
                    if all(x["completed_trips"] for x in rs):
                        e["average_shortest_distance"] = sum(x["total_trips"] * x["shortest_distance"] for x in rs) / n
                compare("the area OD table", {"%s to %s" % (nm[p], nm[q]): g}, {"%s to %s" % (nm[p], nm[q]): e}, when)
        if i != len(got):
            fail("report", "%s, the area OD table has %d rows instead of %d" % (when, len(got), i))

    def check_area(self, W, r, when):
        areas = self.areas(W, r)
        border = r.random() < 0.5
        names = ["a%d" % i for i in range(len(areas))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = list(W.analyzer.area_to_pandas(areas, names, border_include=border).to_dict("records"))
        if len(got) != len(areas):
            fail("report", "%s, the area table has %d rows for %d areas" % (when, len(got), len(areas)))
        lt = reports.links(W)
        for g, ar, nm in zip(got, areas, names):
            S = {n if isinstance(n, str) else n.name for n in ar}
            ls = [n for n, x in lt.items() if ((x["start_node"] in S or x["end_node"] in S) if border else (x["start_node"] in S and x["end_node"] in S))]
            vol = sum(W.DELTAN for v in W.VEHICLES.values() if any(hasattr(l, "start_node") and l.name in ls for l in v.log_link))
            e = dict(area=nm, n_links=len(ls), traffic_volume=vol, vehicles_remain=sum(lt[n]["vehicles_remain"] for n in ls), total_travel_time=0)
            if vol:
                tt = sum(lt[n]["average_travel_time"] * lt[n]["traffic_volume"] for n in ls)
                ft = sum(lt[n]["free_travel_time"] * lt[n]["traffic_volume"] for n in ls)
                e.update(total_travel_time=tt, vehicle_density=vol / sum(lt[n]["length"] for n in ls))
                if ft > 0:
                    e["average_delay"] = max(tt / ft - 1, 0)
                if tt > 0:
                    e["average_speed"] = sum(lt[n]["length"] * lt[n]["traffic_volume"] for n in ls) / tt
            compare("the area table", {nm: g}, {nm: e}, when)

    def check_groups(self, W, r, when):
        vs = list(W.VEHICLES.values())
        if not vs:
            return
        groups = [r.sample(vs, r.randint(1, len(vs))) for _ in range(r.randint(1, 3))]
        names = None if r.random() < 0.4 else ["g%d" % i for i in range(len(groups))]
        # vehicles without a destination have no OD pair; they count as trips that never complete
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = list(W.analyzer.vehicle_groups_to_pandas(groups, names).to_dict("records"))
        T, D = reports.shortest(W)
        for i, (g, grp) in enumerate(zip(got, groups)):
            done = [(v, reports.travel_time(W, v), reports.distance(v)) for v in grp]
            done = [x for x in done if x[1] is not None]
            if any(T[v.orig.name][v.dest.name] == 0 for v, _, _ in done):
                continue
            e = dict(group=names[i] if names else "group %d including %s" % (i, grp[0].name), total_trips=len(grp), completed_trips=len(done))
            if done:
                de = [t / T[v.orig.name][v.dest.name] for v, t, d in done]
                du = [d / D[v.orig.name][v.dest.name] for v, t, d in done]
                e.update(average_travel_time=reports.mean([t for v, t, d in done]), average_traveled_distance=reports.mean([d for v, t, d in done]), average_delay_ratio=reports.mean(de), std_delay_ratio=reports.std(de),
                         average_detour_ratio=reports.mean(du), std_detour_ratio=reports.std(du))
                if all(t > 0 for v, t, d in done):
                    sp = [d / t for v, t, d in done]
                    e.update(average_speed=reports.mean(sp), std_speed=reports.std(sp))
            compare("the vehicle group table", {e["group"]: g}, {e["group"]: e}, when)

    def check_vehicles(self, W, r, when, seen, eng):
        vs = list(W.VEHICLES.values())
        for v in r.sample(vs, min(8, len(vs))):
            es = reports.entries(v)
            for ia, idp in ((True, False), (False, True), (True, True), (False, False)):
                route, ts = v.traveled_route(include_arrival_time=ia, include_departure_time=idp)
                if [l.name for l in route] != [l.name for _, l in es]:
                    fail("report", "%s, traveled_route of %s is %s; it entered %s" % (when, v.name, [l.name for l in route], [l.name for _, l in es]))
                want = ([v.departure_time * W.DELTAT] if idp else []) + [t for t, _ in es]
                if ia:
                    at = v.log_t_link[-1]
                    want.append(at[0] if at[1] == "end" else -1)
                if list(ts) != want:
                    fail("report", "%s, the times of traveled_route of %s are %s instead of %s" % (when, v.name, list(ts), want))
            if len(v.log_t) and v.state == "run":
                # the last movement is not logged yet: the position now
                x, y = v.get_xy_coords()
                l = v.link
                q = v.x / l.length
                if not close(x, l.start_node.x + (l.end_node.x - l.start_node.x) * q) or not close(y, l.start_node.y + (l.end_node.y - l.start_node.y) * q):
                    fail("report", "%s, get_xy_coords of %s is %s on link %s at %s" % (when, v.name, (x, y), l.name, v.x))
            if abs(v.distance_traveled - reports.distance(v)) > 1e-6 * max(1, abs(v.distance_traveled)):
                fail("report", "%s, distance_traveled of %s is %s; it moved %s" % (when, v.name, v.distance_traveled, reports.distance(v)))
            t = reports.travel_time(W, v)
            if not close(v.travel_time, -1 if t is None else t):
                fail("report", "%s, travel_time of %s is %s instead of %s" % (when, v.name, v.travel_time, t))

    # ------------------------------------------------------------------ logs against observed movements
    def observe(self, W, seen):
        """Notes the state of every vehicle after a step."""
        T = W.T - 1
        for n, v in W.VEHICLES.items():
            s = seen.setdefault(n, {})
            if s.get("over"):
                continue
            l = v.link
            s[T] = (v.state, l.name if l is not None else None, float(v.x), float(v.v), v.lane)
            if v.state in ("end", "abort"):
                s["over"] = T

    def check_logs(self, W, seen, ctx, full, scn):
        born = {o[0] for o in scn["ops"] if o[1] == "veh"}
        DT = W.DELTAT
        if not full:
            return self.check_sparse_logs(W, seen, ctx, scn["world"]["log_interval"], born)
        for n, v in W.VEHICLES.items():
            s = seen.get(n)
            if s is None:
                continue
            steps = sorted(k for k in s if k != "over")
            if not steps:
                continue
            t0 = steps[0]
            if t0 + 1 in born and len(v.log_t) and round(float(v.log_t[0]) / DT) == t0 + 1:
                t0 += 1         # created between the steps
                steps = steps[1:]
                if not steps:
                    continue
            want = [round(t * DT, 6) for t in range(t0, (s["over"] if s.get("over") is not None else W.T - 1) + 1)]
            if s.get("over") is not None and want:
                want.append(want[-1])
            lt = [round(float(t), 6) for t in v.log_t]
            if not lt and v.state == "home" and getattr(W, "_cpp_world", None) is not None:
                continue        # the compiled engine has no samples of vehicles that have not departed
            skip = 0
            while skip < len(lt) and lt[skip] < t0 * DT - 1e-6 and str(v.log_state[skip]) == "home":
                skip += 1       # the compiled engine backdates the time at home
            lt = lt[skip:]
            if lt != want and lt != want[:-1]:
                fail("logs", "the log of vehicle %s has the times %s…%s (%d), it existed in the steps %s…%s (%d)" % (n, lt[:3], lt[-3:], len(lt), want[:3], want[-3:], len(want)))
            for i, t in enumerate(list(v.log_t)[skip:skip + len(steps)]):
                k = t0 + i
                j = skip + i
                st, l, x, sp, ln = str(v.log_state[j]), v.log_link[j], v.log_x[j], v.log_v[j], v.log_lane[j]
                lname = l.name if hasattr(l, "start_node") else None
                before, after = s.get(k - 1), s[k]
                if (st == "run") != (lname is not None):
                    fail("logs", "vehicle %s is logged in state %s on link %s" % (n, st, lname))
                if before is not None and before[0] == st == "run" and before[1] == lname:
                    if abs(before[2] - x) > 1e-6 or abs(before[3] - sp) > 1e-6 or (before[4] != ln):
                        fail("logs", "vehicle %s is logged at %s with x=%s v=%s lane=%s; it was at x=%s v=%s lane=%s after the step before" % (n, t, x, sp, ln, before[2], before[3], before[4]))
                    ctx.probe("logs_checked")
                elif lname is not None and after[0] == "run" and after[1] is not None and after[1] != lname:
                    fail("logs", "vehicle %s is logged on link %s at %s; it was on %s before and on %s after that step" % (n, lname, t, before and before[1], after[1]))
                elif lname is None and before is not None and before[0] in ("wait",) and st not in ("wait",):
                    fail("logs", "vehicle %s is logged in state %s at %s while waiting at its origin" % (n, st, t))
                elif lname is None and before is not None and before[0] == "run" and not (k == s.get("over") and st == v.state):
                    fail("logs", "vehicle %s is logged off the network at %s while travelling" % (n, t))
            if s.get("over") is not None and str(v.log_state[-1]) != v.state:
                fail("logs", "the last logged state of vehicle %s is %s, it is in state %s" % (n, v.log_state[-1], v.state))

    def check_sparse_logs(self, W, seen, ctx, k, born):
        """Samples of every k-th step: those of the steps that are a multiple of k, and the end of the trip."""
        DT = W.DELTAT
        for n, v in W.VEHICLES.items():
            s = seen.get(n)
            steps = sorted(x for x in s if x != "over") if s else []
            if not steps or steps[0] + 1 in born:
                continue
            over = s.get("over")
            want = [t for t in range(steps[0], (over if over is not None else W.T - 1) + 1) if t % k == 0]
            if over is not None:
                want.append(over)
            got = [round(float(t) / DT) for t in v.log_t]
            if got != want and got != want[:-2] + want[-1:]:
                fail("logs", "the log of vehicle %s, sampled every %d steps, has the steps %s…%s (%d); it existed in the steps %s…%s (%d)" % (n, k, got[:3], got[-3:], len(got), want[:3], want[-3:], len(want)))
            for j, t in enumerate(got[:-1] if over is not None else got):
                b = s.get(t - 1)
                if b is not None and b[0] == "run" and str(v.log_state[j]) == "run" and v.log_link[j].name == b[1] and (abs(v.log_x[j] - b[2]) > 1e-6 or abs(v.log_v[j] - b[3]) > 1e-6):
                    fail("logs", "vehicle %s is logged at step %d with x=%s v=%s; it was at x=%s v=%s after the step before" % (n, t, v.log_x[j], v.log_v[j], b[2], b[3]))
            if over is not None and str(v.log_state[-1]) != v.state:
                fail("logs", "the last logged state of vehicle %s is %s, it is in state %s" % (n, v.log_state[-1], v.state))
            ctx.probe("sparse_logs")

    def draw(self, W, k, z, ctx, scn):
        a = W.analyzer
        r = random.Random(z)
        ctx.probe("draw_" + k)
        vs = list(W.VEHICLES)
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == "network":
                a.network(t=r.choice([None, W.TIME]), detailed=r.randint(0, 1), state_variables=r.choice(["density_speed", "flow_delay"]))
            elif k == "time_space_diagram_traj_links":
                a.time_space_diagram_traj_links([[l for l in W.LINKS[:2]]])
            elif k in ("time_space_diagram_traj", "time_space_diagram_density", "cumulative_curves"):
                getattr(a, k)(r.choice([W.LINKS[:2], W.LINKS[0], [W.LINKS[-1].name]]))
            elif k == "plot_vehicle_log":
                a.plot_vehicle_log(r.choice(vs)) if vs else None
            elif k == "plot_vehicles_log":
                a.plot_vehicles_log(r.sample(vs, min(3, len(vs)))) if vs else None
            elif k == "network_pillow":
                a.network_pillow(t=W.TIME, detailed=r.randint(0, 1))
            elif k == "network_anim":
                a.network_anim(timestep_skip=max(4, W.TSIZE // 2), detailed=0, network_font_size=0)
            elif k == "network_fancy":
                a.network_fancy(interval=2, sample_ratio=0.7, trace_length=2)
            else:
                getattr(a, k)()

    # ------------------------------------------------------------------ run
    def run(self, case, ctx):
        scn, eng = case["scn"], case["engine"]
        full = scn["world"].get("log_interval", 1) == 1
        tables = finger.TABLES if full else ENDTABLES
        A = build(ctx.ux, scn, eng, case["rng"])
        seenA = {}
        drive(A, scn, step1=True, pause=lambda t: self.observe(A, seenA) if t else None)
        self.observe(A, seenA)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ra = finger.world(A, eng, tables=tables)
        self.count(ctx, A, scn, eng)
        self.check_logs(A, seenA, ctx, full, scn)
        cwd = tmp = None
        over = {}
        if case["draw"]:
            tmp = tempfile.mkdtemp(prefix="dst_c13_")
            cwd = os.getcwd()
            os.chdir(tmp)
            over = dict(save_mode=1)
        try:
            B = build(ctx.ux, scn, eng, case["rng"], **over)
            reads, i = case["reads"], [0]
            seen = {}

            def pause(t):
                if t:
                    self.observe(B, seen)
                k = 0
                while i[0] < len(reads) and reads[i[0]][0] <= t:
                    _, what, z = reads[i[0]]
                    i[0] += 1
                    if not B.finalized and what not in ("stats", "speed", "print", "basic", "od", "trip", "vehicles", "groups", "gps"):
                        continue
                    if not B.finalized:
                        # reports before the first step: a world that is not finalized has no results, only vehicles
                        ctx.probe("read_first_step")
                        continue
                    k += 1
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        if what.startswith("draw:"):
                            self.draw(B, what[5:], z, ctx, scn)
                        else:
                            self.check(B, what, z, case, ctx, "before step %d" % t, seen)
                if k > 1:
                    ctx.probe("two_reads")
            drive(B, scn, step1=True, pause=pause)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                rb = finger.world(B, eng, tables=tables)
                self.count(ctx, B, scn, eng)
                same(ra, rb, "intrusive", "the same run never read / read between its steps (%s)" % eng)
                for j, what in enumerate(REPORTS):
                    self.check(A, what, case["seed"] + j, case, ctx, "at the end", seenA)
        finally:
            if cwd:
                os.chdir(cwd)
                shutil.rmtree(tmp, ignore_errors=True)
        self.record(ctx, ra)


PROP = C13()
