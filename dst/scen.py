"""Scenario specifications (plain JSON) and their seeded generator.

A case is {"world":…, "nodes":[…], "links":[…], "demands":[…], "vehicles":[…], "ops":[…]}.
`ops` is the schedule of interventions/faults: [step, kind, args…], applied before the given step.
The same case can be built on either engine.
"""
import math


# ------------------------------------------------------------------ building
def build_world(ux, case, engine="py", **over):
    kw = dict(case["world"])
    kw.update(over)
    user_kw = dict(name=kw.get("name", ""), deltan=kw["deltan"], reaction_time=kw["reaction_time"], tmax=kw["tmax"],
                   duo_update_time=kw["duo_update_time"], duo_update_weight=kw["duo_update_weight"], duo_noise=kw["duo_noise"],
                   route_choice_principle=kw.get("rcp", "homogeneous_DUO"), route_choice_update_gradual=kw.get("gradual", False),
                   instantaneous_TT_timestep_interval=kw.get("itt", 5), no_cyclic_routing=kw.get("no_cyclic", False),
                   adjust_node_capacity=kw.get("adjust", False), random_seed=kw["seed"], print_mode=kw.get("print_mode", 0),
                   save_mode=kw.get("save_mode", 0), show_mode=0, show_progress=kw.get("show_progress", 0),
                   show_progress_deltat=kw.get("show_progress_deltat", 600),
                   vehicle_logging_timestep_interval=kw.get("log_interval", 1),
                   eular_dt=kw.get("eular_dt", 120), eular_dx=kw.get("eular_dx", 100),
                   hard_deterministic_mode=kw.get("hard", False))
    if engine == "cpp":
        user_kw["cpp"] = True
        user_kw["threads"] = kw.get("threads", 1)
    W = ux.World(**user_kw)
    for n in case["nodes"]:
        add_node(W, n)
    for l in case["links"]:
        add_link(W, l)
    items = [("d", i) for i in range(len(case.get("demands", [])))] + [("v", i) for i in range(len(case.get("vehicles", [])))]
    for k, i in items:
        if k == "d":
            add_demand(W, case["demands"][i])
        else:
            add_vehicle(W, case["vehicles"][i])
    return W


def add_node(W, n):
    kw = {}
    if n.get("signal"):
        kw["signal"] = list(n["signal"])
        kw["signal_offset"] = n.get("offset", 0)
    if n.get("fcap") is not None:
        kw["flow_capacity"] = n["fcap"]
        if n.get("flanes") is not None:
            kw["number_of_lanes"] = n["flanes"]
    kw.update(n.get("kw", {}))
    return W.addNode(n["name"], n["x"], n["y"], **kw)


def toll_fn(t):
    kind, a, b = t
    if kind == "const":
        return lambda tt, a=a: a
    if kind == "step":
        return lambda tt, a=a, b=b: a if tt < b else 0.0
    if kind == "saw":
        return lambda tt, a=a, b=b: a * ((tt // b) % 2)
    raise ValueError(kind)


def add_link(W, l):
    kw = {}
    if l.get("kappa") is not None:
        kw["jam_density"] = l["kappa"]
    if l.get("kpl") is not None:
        kw["jam_density_per_lane"] = l["kpl"]
    if l.get("sg") is not None:
        kw["signal_group"] = list(l["sg"])
    if l.get("cap_in") is not None:
        kw["capacity_in"] = l["cap_in"]
    if l.get("cap_out") is not None:
        kw["capacity_out"] = l["cap_out"]
    if l.get("toll"):
        kw["congestion_pricing"] = toll_fn(l["toll"])
    kw.update(l.get("kw", {}))
    return W.addLink(l["name"], l["a"], l["b"], length=l["len"], free_flow_speed=l["u"], number_of_lanes=l.get("lanes", 1),
                     merge_priority=l.get("mp", 1), **kw)


def add_demand(W, d):
    kw = {}
    if "flow" in d:
        kw["flow"] = d["flow"]
    if "volume" in d:
        kw["volume"] = d["volume"]
    if d.get("attr") is not None:
        kw["attribute"] = d["attr"]
    k = d["kind"]
    if k == "od":
        W.adddemand(d["o"], d["d"], d["t0"], d["t1"], **kw)
    elif k == "p2p":
        W.adddemand_point2point(*d["xy"], d["t0"], d["t1"], **kw)
    elif k == "a2a":
        W.adddemand_area2area(*d["xyr"], d["t0"], d["t1"], **kw)
    elif k == "a2a2":
        W.adddemand_area2area2(*d["xyr"], d["t0"], d["t1"], **kw)
    elif k == "n2n":
        W.adddemand_nodes2nodes(d["os"], d["ds"], d["t0"], d["t1"], **kw)
    elif k == "n2n2":
        W.adddemand_nodes2nodes2(d["os"], d["ds"], d["t0"], d["t1"], **kw)
    else:
        raise ValueError(k)


def add_vehicle(W, v):
    kw = {}
    for a, b in (("name", "name"), ("prefer", "links_prefer"), ("avoid", "links_avoid"), ("mode", "mode"), ("rcp", "route_choice_principle"),
                 ("attr", "attribute"), ("trip_abort", "trip_abort")):
        if v.get(a) is not None:
            kw[b] = v[a]
    veh = W.addVehicle(v["o"], v["d"], v["t"], **kw)
    if v.get("route"):
        veh.enforce_route(list(v["route"]))
    if v.get("dests"):
        veh.add_dests(list(v["dests"]))
    return veh


# ------------------------------------------------------------------ graph helpers
def adjacency(case):
    out = {n["name"]: [] for n in case["nodes"]}
    for l in case["links"]:
        out[l["a"]].append(l)
    return out


def reach(case, o):
    out = adjacency(case)
    seen, st = {o}, [o]
    while st:
        for l in out[st.pop()]:
            if l["b"] not in seen:
                seen.add(l["b"])
                st.append(l["b"])
    return seen


def random_path(case, rng, o, d, maxlen=14, simple=True):
    """Random link path o->d (list of link names) or None."""
    out = adjacency(case)
    # distance-to-d for guidance
    rev = {n["name"]: [] for n in case["nodes"]}
    for l in case["links"]:
        rev[l["b"]].append(l["a"])
    dist = {d: 0}
    q = [d]
    for n in q:
        for m in rev[n]:
            if m not in dist:
                dist[m] = dist[n] + 1
                q.append(m)
    if o not in dist:
        return None
    path, cur, seen = [], o, {o}
    while True:
        opts = [l for l in out[cur] if l["b"] in dist and (not simple or l["b"] not in seen)]
        if not opts or len(path) >= maxlen:
            return None
        l = rng.choice(opts)
        path.append(l["name"])
        cur = l["b"]
        seen.add(cur)
        if cur == d:
            return path


# ------------------------------------------------------------------ generator
def gen_world(rng, **over):
    deltan = rng.choice([1, 2, 5, 5, 5, 10])
    rt = rng.choice([1, 1, 1, 1, 1.5, 2, 0.5, 1.25])
    dt = deltan * rt
    steps = rng.randint(40, 110)
    w = dict(deltan=deltan, reaction_time=rt, tmax=round(steps * dt + rng.choice([0, 0, 0.4 * dt]), 6),
             duo_update_time=round(dt * rng.choice([1, 3, 7, 12, 20, 45]) * rng.choice([1, 1, 1.25]), 6),
             duo_update_weight=rng.choice([0.5, 0.5, 0.25, 1.0, 0.1]), duo_noise=rng.choice([0.01, 0.01, 0, 0.3]),
             rcp=rng.choice(["homogeneous_DUO"] * 5 + ["heterogeneous_DUO"]), gradual=rng.random() < 0.15,
             itt=rng.choice([5, 5, 1, 3, 8]), no_cyclic=rng.random() < 0.2, adjust=rng.random() < 0.1,
             hard=rng.random() < 0.2, seed=rng.randrange(1, 10 ** 6), log_interval=1)
    w.update(over)
    return w


def _link(rng, w, name, a, b, opt):
    dt = w["deltan"] * w["reaction_time"]
    u = rng.choice(opt.get("speeds", [5, 10, 12.5, 20, 20, 30]))
    lanes = rng.choice(opt.get("lanes", [1, 1, 1, 2, 3]))
    kpl = rng.choice([0.2, 0.2, 0.15, 0.1, 0.25])
    # length in free-flow steps
    lo = opt.get("min_steps", 1.2)
    n = rng.choice([lo, lo + 0.5, 2, 3.3, 4, 6, 8.7, 12])
    n = max(n, lo)
    if opt.get("short", 0) and rng.random() < opt["short"]:
        n = rng.choice([0.3, 0.6, 1.0])
    length = round(max(n * u * dt, 2 * w["deltan"] / kpl * 0.6), 3)
    l = dict(name=name, a=a, b=b, len=length, u=u, lanes=lanes, mp=rng.choice([1, 1, 1, 2, 0.5, 0, 3]))
    if rng.random() < 0.5:
        l["kpl"] = kpl
    else:
        l["kappa"] = round(kpl * lanes, 6)
        if l["kappa"] == 0.2:
            l["kappa"] = 0.2
    return l


def link_consts(w, l):
    lanes = l.get("lanes", 1)
    if l.get("kpl") is not None:
        kappa = l["kpl"] * lanes
    else:
        kappa = l.get("kappa", 0.2)
    tau = w["reaction_time"] / lanes
    wv = 1 / tau / kappa
    cap = l["u"] * wv * kappa / (l["u"] + wv)
    return kappa, tau, wv, cap


def gen_network(rng, w, opt=None):
    opt = opt or {}
    fam = rng.choice(opt.get("families", ["chain", "merge", "diverge", "cross", "grid", "rand", "ring", "fork", "sig"]))
    nodes, links = [], []

    def N(name, **k):
        nodes.append(dict(name=name, x=rng.randint(0, 2000), y=rng.randint(0, 2000), **k))

    def L(a, b, **k):
        nm = "l%d_%s_%s" % (len(links), a, b)
        l = _link(rng, w, nm, a, b, opt)
        l.update(k)
        links.append(l)
        return l

    if fam == "chain":
        k = rng.randint(2, 5)
        for i in range(k + 1):
            N("n%d" % i)
        for i in range(k):
            L("n%d" % i, "n%d" % (i + 1))
        if rng.random() < 0.3:
            L("n%d" % (k - 1), "n0")
    elif fam == "merge":
        k = rng.randint(2, 4)
        for i in range(k):
            N("o%d" % i)
        N("m"); N("d")
        for i in range(k):
            L("o%d" % i, "m")
        L("m", "d")
        if rng.random() < 0.3:
            N("e"); L("m", "e")
    elif fam == "diverge":
        k = rng.randint(2, 4)
        N("o"); N("m")
        L("o", "m")
        for i in range(k):
            N("d%d" % i)
            L("m", "d%d" % i)
    elif fam == "fork":
        # two alternative routes o->d plus a parallel link now and then
        for n in ("o", "a", "b", "c", "d"):
            N(n)
        L("o", "a"); L("a", "b"); L("b", "d"); L("a", "c"); L("c", "d")
        if rng.random() < 0.5:
            L("d", "o")
        if rng.random() < 0.4:
            L("a", "b")
    elif fam in ("cross", "sig"):
        N("c")
        arms = rng.randint(2, 4)
        for i in range(arms):
            N("p%d" % i)
            L("p%d" % i, "c")
            if rng.random() < 0.85 or i < 2:
                L("c", "p%d" % i)
        if arms >= 2 and rng.random() < 0.5:
            L("p0", "p1")
    elif fam == "grid":
        kx, ky = rng.choice([(2, 2), (3, 2), (3, 3)])
        for i in range(kx):
            for j in range(ky):
                N("g%d%d" % (i, j))
        for i in range(kx):
            for j in range(ky):
                for (a, b) in ((i + 1, j), (i, j + 1)):
                    if a < kx and b < ky:
                        L("g%d%d" % (i, j), "g%d%d" % (a, b))
                        if rng.random() < 0.75:
                            L("g%d%d" % (a, b), "g%d%d" % (i, j))
    elif fam == "ring":
        k = rng.randint(3, 6)
        for i in range(k):
            N("r%d" % i)
        for i in range(k):
            L("r%d" % i, "r%d" % ((i + 1) % k))
        if rng.random() < 0.5:
            N("x"); L("r0", "x")
        if rng.random() < 0.5:
            N("y"); L("y", "r1")
    else:  # rand
        k = rng.randint(4, 8)
        for i in range(k):
            N("v%d" % i)
        names = ["v%d" % i for i in range(k)]
        for i in range(k - 1):
            L(names[rng.randrange(0, i + 1)], names[i + 1])
        for _ in range(rng.randint(k // 2, k * 2)):
            a, b = rng.sample(names, 2)
            L(a, b)
    # tie-free orders: shuffle nodes and links so that ids carry no structure
    rng.shuffle(nodes)
    rng.shuffle(links)
    inl = {n["name"]: [l for l in links if l["b"] == n["name"]] for n in nodes}
    outl = {n["name"]: [l for l in links if l["a"] == n["name"]] for n in nodes}
    dt = w["deltan"] * w["reaction_time"]
    p_sig = opt.get("p_signal", 0.9 if fam == "sig" else 0.2)
    for n in nodes:
        ins = inl[n["name"]]
        if len(ins) >= 1 and outl[n["name"]] and rng.random() < p_sig:
            ph = rng.choice([2, 2, 3, 4])
            n["signal"] = [round(dt * rng.choice([2, 3, 5, 8]) * rng.choice([1, 1, 1.25]), 6) for _ in range(ph)]
            n["offset"] = rng.choice([0, 0, int(rng.random() * sum(n["signal"]) * 8) / 8])
            for l in ins:
                l["sg"] = sorted(rng.sample(range(ph), rng.choice([1, 1, min(2, ph)])))
        if ins and outl[n["name"]] and rng.random() < opt.get("p_fcap", 0.15):
            n["fcap"] = rng.choice([0.1, 0.3, 0.5, 0.8, 1.2])
            if rng.random() < 0.4:
                n["flanes"] = rng.choice([1, 2])
    for l in links:
        _, _, _, cap = link_consts(w, l)
        if rng.random() < opt.get("p_cap", 0.2):
            l["cap_in"] = round(cap * rng.choice([0.2, 0.4, 0.7, 1.0]), 6)
        if rng.random() < opt.get("p_cap", 0.2):
            l["cap_out"] = round(cap * rng.choice([0.2, 0.4, 0.7, 1.0]), 6)
        if rng.random() < opt.get("p_closed", 0.03):
            l[rng.choice(["cap_in", "cap_out"])] = 0
        if rng.random() < opt.get("p_toll", 0.1):
            l["toll"] = [rng.choice(["const", "step", "saw"]), rng.choice([5, 30, 200]), rng.choice([100, 300])]
    return fam, nodes, links


def gen_demand(rng, case, opt=None):
    opt = opt or {}
    w = case["world"]
    dt = w["deltan"] * w["reaction_time"]
    T = w["tmax"]
    names = [n["name"] for n in case["nodes"]]
    out = adjacency(case)
    srcs = [n for n in names if out[n]]
    dsts = [n for n in names if any(l["b"] == n for l in case["links"])]
    demands, vehicles = [], []
    budget = opt.get("platoons", rng.randint(15, 90))
    nd = rng.randint(1, 5)
    for i in range(nd):
        o = rng.choice(srcs)
        r = sorted(x for x in reach(case, o) if x != o)
        if not r:
            continue
        d = rng.choice(r)
        if rng.random() < opt.get("p_unreach", 0.03):
            d = rng.choice([x for x in dsts if x != o] or dsts)
        t0 = round(rng.choice([0, 0, rng.random() * T * 0.4]), 3)
        t1 = round(min(T, t0 + rng.choice([0.15, 0.3, 0.6, 1.0]) * T), 3)
        if t1 - t0 < 3 * dt:
            t1 = round(t0 + 3 * dt, 3)
        vol = max(1, budget // nd) * w["deltan"]
        if rng.random() < 0.5:
            demands.append(dict(kind="od", o=o, d=d, t0=t0, t1=t1, flow=round(vol / (t1 - t0), 6)))
        else:
            demands.append(dict(kind="od", o=o, d=d, t0=t0, t1=t1, volume=vol))
        if rng.random() < 0.2:
            demands[-1]["attr"] = rng.choice(["a", "b", 7])
    if rng.random() < opt.get("p_area", 0.15):
        k = rng.choice(["n2n2", "n2n"])
        t0 = 0
        t1 = round(T * 0.5, 3)
        os_ = rng.sample(srcs, min(2, len(srcs)))
        common = None
        for o in os_:
            r = reach(case, o)
            common = set(r) if common is None else common & r
        ds = sorted((common or set()) - set(os_))[:2]
        ds = [d for d in ds if d in dsts]
        if ds:
            demands.append(dict(kind=k, os=os_, ds=ds, t0=t0, t1=t1, volume=max(4, budget // 4) * w["deltan"]))
    for _ in range(rng.choice([0, 0, 2, 5]) if opt.get("vehicles", 1) else 0):
        v = gen_vehicle(rng, case, opt)
        if v:
            vehicles.append(v)
    return demands, vehicles


def gen_vehicle(rng, case, opt, t=None):
    w = case["world"]
    names = [n["name"] for n in case["nodes"]]
    out = adjacency(case)
    srcs = [n for n in names if out[n]]
    o = rng.choice(srcs)
    r = sorted(x for x in reach(case, o) if x != o)
    if not r:
        return None
    d = rng.choice(r)
    if t is None:
        t = round(rng.random() * w["tmax"] * 0.5, 3)
    v = dict(o=o, d=d, t=t)
    z = rng.random()
    lnames = [l["name"] for l in case["links"]]
    if z < 0.25 and opt.get("routes", True):
        p = random_path(case, rng, o, d)
        if p:
            v["route"] = p
    elif z < 0.45:
        v["prefer"] = rng.sample(lnames, min(len(lnames), rng.randint(1, 3)))
    elif z < 0.78:
        # never avoid all (preferred) exits of a node: the engine rightly rejects that
        pr = rng.sample(lnames, min(len(lnames), rng.randint(2, 6))) if z > 0.65 else []
        av = rng.sample(lnames, min(len(lnames), rng.randint(1, 3)))
        if pr and rng.random() < 0.5:
            av = list(dict.fromkeys([rng.choice(pr)] + av[1:]))
        ok = True
        for n in names:
            o2 = {l["name"] for l in out[n]}
            o2 = o2 & set(pr) or o2
            if o2 and not (o2 - set(av)):
                ok = False
        if ok:
            v["avoid"] = av
            if pr:
                v["prefer"] = pr
    if rng.random() < opt.get("stay", 0.12):
        v["trip_abort"] = 0
    return v


OPKINDS = ["cap_in", "cap_out", "speed", "kappa", "signal", "phase", "veh", "toll", "close", "open", "fcap"]


def gen_ops(rng, case, opt=None):
    """Seeded schedule of mid-run interventions (the fault sequence)."""
    opt = opt or {}
    w = case["world"]
    dt = w["deltan"] * w["reaction_time"]
    steps = int(w["tmax"] / dt)
    n = rng.choice(opt.get("n_ops", [0, 2, 4, 8, 14]))
    kinds = opt.get("op_kinds") or rng.sample(OPKINDS, rng.randint(2, len(OPKINDS)))
    ops = []
    closed = []
    for _ in range(n):
        s = rng.randint(1, max(1, steps - 2))
        k = rng.choice(kinds)
        l = rng.choice(case["links"])
        nd = rng.choice(case["nodes"])
        kappa, tau, wv, cap = link_consts(w, l)
        if k in ("cap_in", "cap_out"):
            ops.append([s, k, l["name"], round(cap * rng.choice([0.1, 0.3, 0.6, 1.0, 2.0]), 6)])
        elif k == "close":
            which = rng.choice(["cap_in", "cap_out"])
            ops.append([s, which, l["name"], 0])
            if rng.random() < 0.75:
                ops.append([min(steps - 1, s + rng.randint(1, 25)), which, l["name"], round(2 * cap, 6)])
        elif k == "speed":
            umax = opt.get("umax_factor", 1.0)
            ops.append([s, "speed", l["name"], round(max(1.0, l["u"] * rng.choice([0.3, 0.5, 0.8, 1.0, umax])), 4)])
        elif k == "kappa":
            ops.append([s, "kappa", l["name"], round(kappa * rng.choice([0.7, 0.9, 1.0, 1.2]), 6)])
        elif k == "signal" and nd.get("signal"):
            m = len(nd["signal"])
            if opt.get("resize_signal", True) and rng.random() < 0.3:
                m = rng.choice([2, 3, 4])
            sig = [round(dt * rng.choice([1, 2, 4, 7, 60]), 6) for _ in range(m)]
            ops.append([s, "signal", nd["name"], sig, rng.random() < 0.4])
        elif k == "phase" and nd.get("signal"):
            ops.append([s, "phase", nd["name"], rng.randrange(len(nd["signal"])), 0])
        elif k == "veh":
            v = gen_vehicle(rng, case, opt, t=round(max(0, s + rng.choice([0, 0, 1, 4, -1, -6])) * dt, 6))
            if v:
                ops.append([s, "veh", v])
        elif k == "toll" and opt.get("toll_ops", True):
            ops.append([s, "toll", l["name"], [rng.choice(["const", "step"]), rng.choice([0, 20, 400]), rng.choice([100, 500])]])
        elif k == "fcap" and (nd.get("fcap") is not None or opt.get("late_fcap")) and opt.get("fcap_ops", True):
            ops.append([s, "fcap", nd["name"], rng.choice([0, 0.05, 0.4, 1.5] + ([None, 0.1] if opt.get("late_fcap") else []))])
    ops.sort(key=lambda o: o[0])
    return ops


def gen_case(rng, opt=None, **worldover):
    opt = opt or {}
    w = gen_world(rng, **worldover)
    fam, nodes, links = gen_network(rng, w, opt)
    case = dict(world=w, nodes=nodes, links=links, demands=[], vehicles=[], ops=[], family=fam)
    case["demands"], case["vehicles"] = gen_demand(rng, case, opt)
    case["ops"] = gen_ops(rng, case, opt)
    return case


def fix_signal_ops(case):
    """Phase overrides must stay below the number of phases in force; drop those that do not."""
    cur = {n["name"]: len(n["signal"]) for n in case["nodes"] if n.get("signal")}
    out = []
    for op in case["ops"]:
        if op[1] == "signal":
            cur[op[2]] = len(op[3])
        if op[1] == "phase" and op[3] >= cur.get(op[2], 1):
            continue
        out.append(op)
    case["ops"] = out
    return case


# ------------------------------------------------------------------ applying interventions
def apply_op(W, op):
    k = op[1]
    if k == "cap_in":
        W.get_link(op[2]).capacity_in = op[3]
    elif k == "cap_out":
        W.get_link(op[2]).capacity_out = op[3]
    elif k == "speed":
        W.get_link(op[2]).change_free_flow_speed(op[3])
    elif k == "kappa":
        W.get_link(op[2]).change_jam_density(op[3])
    elif k == "signal":
        W.get_node(op[2]).override_signal(list(op[3]), reset=bool(op[4]))
    elif k == "groups":
        W.get_node(op[2]).override_signal(list(op[3]), groups=op[4])
    elif k == "phase":
        n = W.get_node(op[2])
        n.signal_phase = op[3]
        n.signal_t = op[4]
    elif k == "mp":
        W.get_link(op[2]).merge_priority = op[3]
    elif k == "veh":
        return add_vehicle(W, op[2])
    elif k == "toll":
        W.get_link(op[2]).congestion_pricing = toll_fn(op[3])
    elif k == "fcap":
        W.get_node(op[2]).flow_capacity = op[3]
    elif k == "prefer":
        W.VEHICLES[op[2]].set_links_prefer(list(op[3]))
    elif k == "avoid":
        W.VEHICLES[op[2]].set_links_avoid(list(op[3]))
    else:
        raise ValueError(k)


# ------------------------------------------------------------------ shrinking
def shrink_case(case):
    """Yields smaller variants, most aggressive first."""
    import copy

    def c():
        return copy.deepcopy(case)
    for key in ("ops", "vehicles", "demands"):
        items = case.get(key) or []
        n = len(items)
        if n:
            x = c(); x[key] = []; yield x
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                x = c()
                x[key] = items[:i] + items[i + size:]
                if len(x[key]) < n:
                    yield x
            size //= 2
    # drop links, then isolated nodes
    for i in range(len(case["links"])):
        nm = case["links"][i]["name"]
        if _mentions(case, nm):
            continue
        x = c()
        del x["links"][i]
        yield x
    used = {l["a"] for l in case["links"]} | {l["b"] for l in case["links"]}
    for i in range(len(case["nodes"])):
        if case["nodes"][i]["name"] not in used and not _mentions(case, case["nodes"][i]["name"]):
            x = c(); del x["nodes"][i]; yield x
    w = case["world"]
    dt = w["deltan"] * w["reaction_time"]
    for f in (0.5, 0.75, 0.9):
        t = round(math.floor(w["tmax"] * f / dt) * dt, 6)
        if t >= 5 * dt and t < w["tmax"]:
            x = c(); x["world"]["tmax"] = t; x["ops"] = [o for o in x["ops"] if o[0] < t / dt]; yield x
    for i, d in enumerate(case.get("demands", [])):
        if d.get("volume", 0) > w["deltan"]:
            x = c(); x["demands"][i]["volume"] = max(w["deltan"], int(d["volume"] / 2 / w["deltan"]) * w["deltan"]); yield x
        elif d.get("flow", 0) > 0:
            x = c(); x["demands"][i]["t1"] = round(d["t0"] + (d["t1"] - d["t0"]) / 2, 6)
            if x["demands"][i]["t1"] > d["t0"] + dt:
                yield x
    for i, l in enumerate(case["links"]):
        for k in ("toll", "cap_in", "cap_out", "sg"):
            if l.get(k) is not None and k != "sg":
                x = c(); x["links"][i].pop(k); yield x
        if l.get("lanes", 1) > 1:
            x = c(); x["links"][i]["lanes"] = 1; yield x
    for i, n in enumerate(case["nodes"]):
        if n.get("fcap") is not None:
            x = c(); x["nodes"][i].pop("fcap"); x["nodes"][i].pop("flanes", None); x["ops"] = [o for o in x["ops"] if not (o[1] == "fcap" and o[2] == n["name"] and o[3] is None)]; yield x
    for k, v in (("no_cyclic", False), ("gradual", False), ("adjust", False), ("rcp", "homogeneous_DUO"), ("hard", False), ("duo_noise", 0)):
        if w.get(k, v) != v:
            x = c(); x["world"][k] = v; yield x


def _mentions(case, name):
    import json
    rest = json.dumps([case.get("ops"), case.get("vehicles"), case.get("demands")])
    return json.dumps(name) in rest
