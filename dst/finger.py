"""Complete public state and history of a world as plain data, and the first difference between two such records."""
import hashlib, json, math
import numpy as np


def _f(x):
    """Numbers to plain Python numbers; values compare by bits (nan equals nan)."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == int(x) if math.isfinite(x) else False:
            return int(x)
        return x if x == x else "nan"
    return x


def seq(a):
    return [_f(v) for v in (a.tolist() if isinstance(a, np.ndarray) else a)]


def nm(o):
    if o is None or isinstance(o, str):
        return o
    if isinstance(o, (int, np.integer)):
        return int(o)
    return o.name


def vehicle(v, logs=True):
    d = dict(orig=nm(v.orig), dest=nm(v.dest), dep=_f(v.departure_time), state=v.state, link=nm(v.link), x=_f(v.x), v=_f(v.v), lane=_f(v.lane),
             arr=_f(v.arrival_time), tt=_f(v.travel_time), dist=_f(v.distance_traveled), attr=v.attribute, aborted=_f(v.flag_trip_aborted))
    if logs:
        d.update(log_t=seq(v.log_t), log_state=[str(s) for s in v.log_state], log_link=[nm(l) for l in v.log_link], log_x=seq(v.log_x), log_v=seq(v.log_v),
                 log_s=seq(v.log_s), log_lane=seq(v.log_lane), log_t_link=[[_f(t), nm(l)] for t, l in v.log_t_link])
    return d


def link(l, curves=True):
    d = dict(u=_f(l.u), kappa=_f(l.kappa), cap_in=_f(l.capacity_in), cap_out=_f(l.capacity_out), n=_f(l.num_vehicles), speed=_f(l.speed), flow=_f(l.flow),
             density=_f(l.density), queue=_f(l.num_vehicles_queue))
    if curves:
        d.update(A=seq(l.cum_arrival), D=seq(l.cum_departure), tt=seq(l.traveltime_actual), tti=seq(l.traveltime_instant))
    return d


def node(n):
    return dict(phase=_f(n.signal_phase), t=_f(n.signal_t), log=seq(n.signal_log))


def table(df):
    return dict(columns=[str(c) for c in df.columns], rows=[[_f(x) if not isinstance(x, str) else x for x in r] for r in df.values.tolist()])


def stats(W):
    a = W.analyzer
    d = {}
    for k in ("average_speed", "average_speed_count", "trip_completed", "trip_all", "total_travel_time", "average_travel_time", "total_delay", "average_delay", "total_distance_traveled"):
        if hasattr(a, k):
            d[k] = _f(getattr(a, k))
    return d


TABLES = ("basic_to_pandas", "od_to_pandas", "link_to_pandas", "vehicle_trip_to_pandas", "link_cumulative_to_pandas", "vehicles_to_pandas", "link_traffic_state_to_pandas", "mfd_to_pandas", "gps_like_log_to_pandas")


def guidance(W, engine):
    if engine == "cpp":
        c = W._cpp_world
        return dict(pref=[seq(r) for r in c.route_preference], next=[seq(r) for r in c.route_next], dist=[seq(r) for r in c.route_dist])
    R = W.ROUTECHOICE
    return dict(pref=[seq(r) for r in np.asarray(R.route_pref)], next=[seq(r) for r in np.asarray(R.next)], dist=[seq(r) for r in np.asarray(R.dist)])


def world(W, engine="py", logs=True, tables=(), guide=True):
    d = dict(T=_f(W.T), TIME=_f(W.TIME), vehicles={n: vehicle(v, logs) for n, v in W.VEHICLES.items()}, links={l.name: link(l, logs) for l in W.LINKS},
             nodes={n.name: node(n) for n in W.NODES}, living=sorted(W.VEHICLES_LIVING), running=sorted(W.VEHICLES_RUNNING), stats=stats(W))
    if guide and W.finalized:
        d["guidance"] = guidance(W, engine)
    for t in tables:
        d["table:" + t] = table(getattr(W.analyzer, t)())
    return d


def digest(d):
    return hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()


def diff(a, b, tol=0.0, path=""):
    """Path and values of the first difference, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s/%s is missing in the second" % (path, k)
        for k in b:
            if k not in a:
                return "%s/%s is missing in the first" % (path, k)
        for k in a:
            r = diff(a[k], b[k], tol, "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if tol == 0.0 and a == b:
            return None
        if len(a) != len(b):
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if diff(x, y, tol)), min(len(a), len(b)))
            return "%s has %d and %d entries, first difference at [%d]: %r / %r" % (path, len(a), len(b), i, a[i] if i < len(a) else None, b[i] if i < len(b) else None)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, tol, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if a == b or (tol and abs(a - b) <= tol * max(1.0, abs(a), abs(b))):
            return None
        return "%s: %r / %r" % (path, a, b)
    if a != b:
        return "%s: %r / %r" % (path, a, b)
    return None
