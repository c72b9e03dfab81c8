"""C17: traffic recovers once disruptions end."""
import math
from .. import finger, scen
from ..prop import Prop
from ..sim import SimRng
from ._lock import cpp_case, fail
from ._twin import TwinProp, build, tsize

BIG = 1e9


def acyclic(case):
    out = scen.adjacency(case)
    state = {}

    def visit(n):
        state[n] = 1
        for l in out[n]:
            if state.get(l["b"]) == 1:
                return False
            if l["b"] not in state and not visit(l["b"]):
                return False
        state[n] = 2
        return True
    return all(visit(n) for n in out if n not in state)


def depth(case):
    """Links on the longest path of an acyclic network."""
    out = scen.adjacency(case)
    memo = {}

    def d(n):
        if n not in memo:
            memo[n] = max([1 + d(l["b"]) for l in out[n]], default=0)
        return memo[n]
    return max(d(n) for n in out)


class C17(TwinProp):
    id = "C17"
    quick_n, thorough_n = 4000, 120000
    case_limit = 120
    rule = ("one evaluation is one seeded scenario disrupted by closures, choked capacities, red-only signals, slow-downs, floods of vehicles and changed jam densities that all end, with the demand, at a seeded step, "
            "then run until nothing is left or a bound is reached; distinct_nontrivial counts distinct final records with vehicles in the network")
    want_probes = ["acyclic", "cyclic", "frozen_before_recovery", "recovered", "gridlock", "left_at_recovery", "aborted", "signals", "node_capacity", "starved_choice"]
    assumptions = ["scenarios of 2-13 nodes, up to ~90 platoons; disruptions last up to 110 steps",
                   "in networks with cycles vehicles may travel on without arriving for long (random route choice): there, something must move, and what has stopped for good must be a circular wait",
                   "the bound of a stop: two signal cycles, twice the time the smallest capacity needs to admit a platoon, 12 steps",
                   "the bound of the recovery of an acyclic network: per link of the longest path, its free-flow time and one platoon per signal cycle and per refill of the smallest capacity"]

    def gen(self, rng, idx):
        engine = "cpp" if rng.random() < 0.3 else "py"
        fams = ["chain", "merge", "diverge", "fork", "sig", "cross", "grid", "rand", "ring"]
        w = scen.gen_world(rng)
        opt = dict(families=fams, p_signal=0.35, p_fcap=0.3, p_closed=0, p_unreach=0, stay=0, short=0.1 if engine == "py" else 0, p_cap=0.3, platoons=rng.choice([15, 40, 80]))
        fam, nodes, links = scen.gen_network(rng, w, opt)
        if rng.random() < 0.55:
            # make it acyclic: drop the links that point back in a random order of the nodes
            order = {}
            for n in nodes:
                order[n["name"]] = rng.random()
            if fam in ("merge", "diverge", "fork", "chain"):
                bad = [l for l in links if (l["a"], l["b"]) in (("d", "o"),) or (l["a"] != "n0" and l["b"] == "n0")]
            else:
                bad = [l for l in links if order[l["a"]] > order[l["b"]]]
            keep = [l for l in links if l not in bad]
            if keep:
                links = keep
        scn = dict(world=w, nodes=nodes, links=links, demands=[], vehicles=[], ops=[], family=fam)
        scn["demands"], scn["vehicles"] = scen.gen_demand(rng, scn, opt)
        if engine == "cpp":
            cpp_case(scn)
        base = tsize(scn)
        scn["ops"], srec = self.disrupt(rng, scn, base)
        dt = w["deltan"] * w["reaction_time"]
        w["tmax"] = (base + 6000) * dt
        case = dict(scn=scn, engine=engine, srec=srec, rng=dict(seed=rng.randrange(10 ** 6), bias=rng.choice([0, 0.3, 0.9, 1.0]), mode=rng.choice(["mix", "first", "last"])) if rng.random() < 0.6 else None)
        return case

    def disrupt(self, rng, scn, base):
        w = scn["world"]
        dt = w["deltan"] * w["reaction_time"]
        nodes = {n["name"]: n for n in scn["nodes"]}
        links = {l["name"]: l for l in scn["links"]}
        srec = base
        ops = []

        for _ in range(rng.choice([1, 2, 4, 7, 10])):
            s = rng.randint(1, max(1, base - 2))
            e = min(srec, s + rng.choice([1, 5, 20, 60, 200]))
            k = rng.choice(["close", "close", "choke", "speed", "kappa", "fcap", "red", "red", "flood"])
            l = rng.choice(scn["links"])
            n = rng.choice(scn["nodes"])
            cap = scen.link_consts(w, l)[3]
            if k in ("close", "choke"):
                kk = rng.choice(["cap_in", "cap_out"])
                ops.append([s, kk, l["name"], 0 if k == "close" else round(cap * rng.choice([0.01, 0.05, 0.2]), 6)])
                name = l["name"]
            elif k == "speed":
                kk, name = "speed", l["name"]
                ops.append([s, kk, name, rng.choice([0.05, 0.5, 2.0])])
            elif k == "kappa":
                kk, name = "kappa", l["name"]
                ops.append([s, kk, name, round(scen.link_consts(w, l)[0] * rng.choice([0.6, 0.8, 1.2]), 6)])
            elif k == "fcap":
                n = rng.choice([x for x in scn["nodes"] if x.get("fcap") is not None] or [None])
                if n is None:
                    continue
                kk, name = "fcap", n["name"]
                ops.append([s, kk, name, rng.choice([0, 0, 0.01])])
            elif k == "red":
                n = rng.choice([x for x in scn["nodes"] if x.get("signal")] or [None])
                if n is None:
                    continue
                kk, name = "signal", n["name"]
                m = rng.choice([len(n["signal"]), len(n["signal"]), 2, 4])
                sig = [dt * 2] * m
                sig[rng.randrange(m)] = 100000.0
                ops.append([s, kk, name, sig, rng.random() < 0.5])
            else:
                for i in range(rng.choice([3, 12])):
                    v = scen.gen_vehicle(rng, scn, dict(stay=0), t=round((s + i // 4) * dt, 6))
                    if v:
                        ops.append([s, "veh", v])
                srec = max(srec, s + 4)
                continue
            ops.append([e] + self.restore(scn, kk, name))
        ops.sort(key=lambda o: o[0])
        return ops, srec

    def restore(self, scn, kind, name):
        nodes = {n["name"]: n for n in scn["nodes"]}
        links = {l["name"]: l for l in scn["links"]}
        if kind in ("cap_in", "cap_out"):
            v = links[name].get(kind)
            return [kind, name, v if v is not None else BIG]
        if kind == "speed":
            return [kind, name, links[name]["u"]]
        if kind == "kappa":
            return [kind, name, scen.link_consts(scn["world"], links[name])[0]]
        if kind == "fcap":
            return [kind, name, nodes[name]["fcap"] if nodes[name].get("fcap") is not None else BIG]
        return [kind, name, nodes[name]["signal"], True]

    def bounds(self, scn):
        w = scn["world"]
        dt = w["deltan"] * w["reaction_time"]
        cyc = max([sum(n["signal"]) / dt + len(n["signal"]) + 1 for n in scn["nodes"] if n.get("signal")], default=0)
        caps = [l[k] for l in scn["links"] for k in ("cap_in", "cap_out") if l.get(k)] + [n["fcap"] for n in scn["nodes"] if n.get("fcap")]
        refill = max([w["deltan"] / c / dt for c in caps], default=0) + 1
        ff = max(l["len"] / l["u"] / dt for l in scn["links"]) + 2
        return math.ceil(cyc), math.ceil(refill), math.ceil(ff)

    def snapshot(self, W, done):
        """What can move: (state, link, position) of every vehicle that is not finished; vehicles that finished are remembered."""
        out = []
        for nm, v in W.VEHICLES.items():
            if nm in done:
                continue
            st = v.state
            if st in ("end", "abort"):
                done[nm] = st
                continue
            l = v.link
            out.append((nm, st, l.name if l is not None else None, v.x))
        return out

    def run(self, case, ctx):
        scn, eng = case["scn"], case["engine"]
        W = build(ctx.ux, scn, eng, case.get("rng"))
        dt = W.DELTAT
        srec = max([case["srec"]] + [o[0] for o in scn["ops"]])
        n = tsize(scn)
        cyc, refill, ff = self.bounds(scn)
        K = 2 * cyc + 2 * refill + 12
        dag = acyclic(scn)
        ctx.probe("acyclic" if dag else "cyclic")
        done = {}
        t, i = 0, 0
        ops = scn["ops"]
        prev, still = None, 0
        # ---- the disrupted part
        while t < srec:
            while i < len(ops) and ops[i][0] <= t:
                scen.apply_op(W, ops[i])
                i += 1
            W.exec_simulation(duration_t2=dt)
            t = W.T
            cur = self.snapshot(W, done)
            live = [x for x in cur if x[1] != "home"]
            still = still + 1 if live and cur == prev else 0
            prev = cur
            if still == 10:
                ctx.probe("frozen_before_recovery")
        while i < len(ops):
            scen.apply_op(W, ops[i])
            i += 1
        for kk, name in sorted({(o[1], o[2]) for o in ops if o[1] != "veh"}):
            scen.apply_op(W, [srec] + self.restore(scn, kk, name))
        # ---- recovery
        cur = self.snapshot(W, done)
        left0 = len(cur)
        N = max(1, len(W.VEHICLES))
        if cur:
            ctx.probe("left_at_recovery")
        bound = (ff + N * (cyc + refill + 1)) * (depth(scn) + 1) + K if dag else None
        stride = 1 if eng == "py" else 3
        still, verdict = 0, None
        prev = cur
        cut = 1500 if case.get("quick", True) else 6000
        while cur:
            if t >= n or (not dag and t - srec > 400 + 3 * K):
                verdict = "horizon"
                break
            if dag and t - srec > bound:
                fail("not-recovered", "%d steps after everything was restored %d of %d vehicles have still not arrived in an acyclic network (bound %d): %s" % (t - srec, len(cur), N, bound, cur[:4]))
            if t - srec > cut:
                verdict = "cut"
                break
            W.exec_simulation(duration_t2=stride * dt)
            t = W.T
            cur = self.snapshot(W, done)
            active = any(x[1] != "home" for x in cur)
            still = still + stride if active and cur == prev else 0
            prev = cur
            if still > K:
                self.frozen(W, scn, eng, cur, dag, K, t)
                verdict = "gridlock"
                break
        ctx.probe(verdict or "recovered")
        if verdict is None and left0:
            ctx.probe("recovered_with_work")
        ctx.probe("aborted", sum(1 for x in done.values() if x == "abort"))
        if any(x.get("signal") for x in scn["nodes"]):
            ctx.probe("signals")
        if any(x.get("fcap") for x in scn["nodes"]):
            ctx.probe("node_capacity")
        if case.get("rng") and case["rng"]["bias"] == 1.0:
            ctx.probe("starved_choice")
        self.count(ctx, W, scn, eng)
        self.record(ctx, [sorted(done.items()), t, cur])

    def wish(self, W, nm, eng):
        v = W.VEHICLES[nm]
        return getattr(v if eng == "py" else v._cpp_vehicle, "route_next_link", None)

    def frozen(self, W, scn, eng, cur, dag, K, t):
        """Nothing has moved for K steps: every stopped link must be part of, or lead to, a circular wait."""
        wait = {}
        on = {}
        for nm, st, l, x in cur:
            if st == "run":
                on.setdefault(l, []).append((x, nm))
        what = "step %d: nothing has moved for %d steps (bound %d) although nothing is disrupted and %d vehicles are under way" % (t, K, K, len(cur))
        if dag:
            fail("frozen-dag", what + " in an acyclic network; e.g. %s" % (cur[:4],))
        L = {l["name"]: l for l in scn["links"]}
        for l, vs in on.items():
            if eng == "py":
                front = W.get_link(l).vehicles[0].name
                heads = [v for v in vs if v[1] == front]
            else:       # which of the lanes' heads is the front of the link cannot be seen: any of them
                heads = [v for v in vs if v[0] > max(vs)[0] - 1e-6]
            if heads[0][0] < L[l]["len"] - 1e-6:
                fail("frozen-free-road", what + "; vehicle %s heads link %s at %.2f of %.2f m with a free road" % (heads[0][1], l, heads[0][0], L[l]["len"]))
            wait[l] = []
            for x, nm in heads:
                nx = self.wish(W, nm, eng)
                if nx is not None:
                    wait[l].append(nx.name)
            if not wait[l]:
                fail("frozen-nowhere", what + "; vehicle %s at the end of link %s wants nowhere" % (heads[0][1], l))
        for nm, st, l, x in cur:
            if st == "wait":
                o = W.VEHICLES[nm].orig.name
                outs = [y["name"] for y in scn["links"] if y["a"] == o]
                if all(y not in on for y in outs):
                    fail("frozen-origin", what + "; vehicle %s waits at origin %s although all its links are empty" % (nm, o))
        stuck = set(wait)
        while True:
            loose = [l for l in stuck if not any(x in stuck for x in wait[l])]
            if not loose:
                break
            l = loose[0]
            if not any(x in on for x in wait[l]):
                fail("frozen-chain", what + "; the front of link %s waits for link %s, which is empty" % (l, wait[l]))
            stuck.discard(l)
        left = sorted(set(wait) - stuck)
        if left:
            fail("frozen-chain", what + "; the links %s do not lead to a circular wait" % left)

    def shrink(self, case):
        for x in Prop.shrink(self, case):
            scn = x["scn"]
            if all(d["d"] in scen.reach(scn, d["o"]) for d in scn["demands"] + scn["vehicles"] + [o[2] for o in scn["ops"] if o[1] == "veh"] if "o" in d):
                yield x


PROP = C17()
