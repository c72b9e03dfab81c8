"""Independent recomputation of every report of the analyzer from the vehicles' movement records.

Nothing here calls the analyzer. Inputs are the raw records (per-vehicle logs, per-link cumulative
curves), which the checks compare with observed movements on their own.
"""
import math

INF = float("inf")


def passages(W, v):
    """[(link, [t…], [x…], [v…], [lane…])] of one vehicle, from its sampled log."""
    out = []
    last = None
    for t, l, x, s, ln in zip(v.log_t, v.log_link, v.log_x, v.log_v, v.log_lane):
        if isinstance(l, (int, str)) and not hasattr(l, "start_node"):
            continue
        if last is not l:
            out.append((l, [], [], [], []))
            last = l
        out[-1][1].append(t); out[-1][2].append(x); out[-1][3].append(s); out[-1][4].append(ln)
    return out


def entries(v):
    """[(time, link)] of the links entered."""
    return [(t, l) for t, l in v.log_t_link if hasattr(l, "start_node")]


def distance(v):
    es = entries(v)
    d = sum(l.length for _, l in es)
    if v.state == "run":
        d -= es[-1][1].length if es else 0
        d += v.x
    return d


def shortest(W):
    """All pairs least free-flow time and least distance over links that admit vehicles."""
    n = [x.name for x in W.NODES]
    T = {a: {b: (0 if a == b else INF) for b in n} for a in n}
    D = {a: {b: (0 if a == b else INF) for b in n} for a in n}
    for l in W.LINKS:
        if l.capacity_in == 0:
            continue
        a, b = l.start_node.name, l.end_node.name
        if a != b:
            T[a][b] = min(T[a][b], l.length / l.u)
            D[a][b] = min(D[a][b], l.length)
    for M in (T, D):
        for k in n:
            for a in n:
                if M[a][k] < INF:
                    for b in n:
                        if M[a][k] + M[k][b] < M[a][b]:
                            M[a][b] = M[a][k] + M[k][b]
    return T, D


def mean(a):
    return sum(a) / len(a)


def std(a):
    m = mean(a)
    return math.sqrt(sum((x - m) ** 2 for x in a) / len(a))


def arrived_at(v):
    """Time at which the trip ended at its destination, or None."""
    t, l = v.log_t_link[-1]
    return t if l == "end" and not v.flag_trip_aborted else None


def travel_time(W, v):
    t = arrived_at(v)
    return None if t is None else t - v.departure_time * W.DELTAT


def od(W):
    T, D = shortest(W)
    rows = {}
    for v in W.VEHICLES.values():
        if v.dest is None:
            continue
        r = rows.setdefault((v.orig.name, v.dest.name), dict(n=0, tt=[], dist=[]))
        r["n"] += 1
        r["dist"].append(distance(v))
        t = travel_time(W, v)
        if t is not None:
            r["tt"].append(t)
    out = {}
    dn = W.DELTAN
    for (a, b), r in rows.items():
        c = len(r["tt"])
        out[a, b] = dict(total_trips=r["n"] * dn, completed_trips=c * dn, average_distance_traveled_per_veh=mean(r["dist"]), stddiv_distance_traveled_per_veh=std(r["dist"]))
        if c:
            out[a, b].update(free_travel_time=T[a][b], shortest_distance=D[a][b], average_travel_time=mean(r["tt"]), stddiv_travel_time=std(r["tt"]))
    return out


def basic(W, o=None):
    o = o or od(W)
    n, c = sum(r["total_trips"] for r in o.values()), sum(r["completed_trips"] for r in o.values())
    d = dict(total_trips=n, completed_trips=c)
    if c:
        rs = [r for r in o.values() if r["completed_trips"]]
        tt = sum(r["completed_trips"] * r["average_travel_time"] for r in rs)
        dl = sum(r["completed_trips"] * (r["average_travel_time"] - r["free_travel_time"]) for r in rs)
        d.update(total_travel_time=tt, average_travel_time=tt / c, total_delay=dl, average_delay=dl / c)
    else:
        d.update(total_travel_time=-1, average_travel_time=-1, total_delay=-1, average_delay=-1)
    d["_distance"] = sum(r["average_distance_traveled_per_veh"] * r["total_trips"] for r in o.values())
    return d


def links(W):
    A, D = {l.name: 0 for l in W.LINKS}, {l.name: 0 for l in W.LINKS}
    for v in W.VEHICLES.values():
        es = entries(v)
        for i, (t, l) in enumerate(es):
            A[l.name] += W.DELTAN
            if i < len(es) - 1 or v.state in ("end", "abort"):
                D[l.name] += W.DELTAN
    out = {}
    for l in W.LINKS:
        free = l.length / l.u
        r = dict(start_node=l.start_node.name, end_node=l.end_node.name, traffic_volume=D[l.name], vehicles_remain=A[l.name] - D[l.name], free_travel_time=free, length=l.length,
                 average_travel_time=-1, stddiv_travel_time=-1)
        tt = [float(x) for x in l.traveltime_actual if x > 0]
        if D[l.name] and tt:
            r["average_travel_time"], r["stddiv_travel_time"] = mean(tt), std(tt)
        r["delay_ratio"] = r["average_travel_time"] / free
        out[l.name] = r
    return out


def trajectories(W):
    """{link name: [(ts, xs)]} completed to the ends of the link at free-flow speed."""
    out = {l.name: [] for l in W.LINKS}
    eps = W.DELTAT * 0.01
    for v in W.VEHICLES.values():
        for l, ts, xs, vs, lanes in passages(W, v):
            ts, xs = list(ts), list(xs)
            u, L = l.u, l.length
            if xs[0] != 0 and xs[0] / u > eps:
                ts.insert(0, ts[0] - xs[0] / u)
                xs.insert(0, 0)
            if L - u * W.DELTAT <= xs[-1] < L and (L - xs[-1]) / u > eps:
                ts.append(ts[-1] + (L - xs[-1]) / u)
                xs.append(L)
            out[l.name].append((ts, xs))
    return out


def edie(W):
    """{link name: (time spent, distance travelled, ambiguous cells)} per (time cell, space cell)."""
    out = {}
    tr = trajectories(W)

    def amb(z, d):
        q = z / d
        return abs(q - round(q)) < 1e-6
    for l in W.LINKS:
        dx, dt = l.edie_dx, l.edie_dt
        nt, nx = int(W.TMAX / dt), int(l.length / dx)
        tn = [[0.0] * nx for _ in range(nt)]
        dn = [[0.0] * nx for _ in range(nt)]
        bad = set()
        for ts, xs in tr[l.name]:
            for t0, t1, x0, x1 in zip(ts, ts[1:], xs, xs[1:]):
                i = int(math.floor(t0 / dt + 1e-9))
                # a segment counts in the time cell in which it starts; with rounding at the cell border either one is fine
                if amb(t0, dt) and int(t0 // dt) != i:
                    bad.add((i, None)); bad.add((i - 1, None))
                if i >= nt or i < 0:
                    continue
                if x1 <= x0:
                    j = int(math.floor(x0 / dx))
                    if amb(x0, dx):
                        k = int(round(x0 / dx))
                        if k != int(x0 // dx) or k != j:
                            bad.add((i, k)); bad.add((i, k - 1))
                    if 0 <= j < nx:
                        tn[i][j] += t1 - t0
                    continue
                v = (x1 - x0) / (t1 - t0) if t1 > t0 else 0
                for j in range(max(0, int(math.floor(x0 / dx)) - 1), min(nx, int(math.floor(x1 / dx)) + 2)):
                    a, b = max(x0, j * dx), min(x1, (j + 1) * dx)
                    if b > a:
                        dn[i][j] += b - a
                        tn[i][j] += (b - a) / v if v > 0 else 0
        out[l.name] = (tn, dn, bad)
    return out
