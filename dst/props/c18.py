"""C18: traffic assignment solvers return valid, best and reproducible solutions."""
import random, warnings
import numpy as np
from .. import finger, reports, scen
from ..prop import Prop
from ._lock import cpp_case, fail
from ._twin import TwinProp, quiet, tsize

TOL = 1e-6


class Stop(Exception):
    pass


class Factory:
    """The user's world-building function: builds the scenario anew, keeps what it returned, and can fail at a chosen point."""

    def __init__(self, ux, scn, engine, vary, fault=None):
        self.ux, self.scn, self.engine, self.vary, self.fault = ux, scn, engine, vary, fault
        self.worlds = []        # in the order of the calls
        self.done = []          # (call index, world, record), in the order of the completed executions

    def build(self, i):
        over = dict(seed=self.scn["world"]["seed"] + i) if self.vary else {}
        return scen.build_world(self.ux, self.scn, self.engine, **over)

    def __call__(self):
        i = len(self.worlds)
        if self.fault and self.fault[0] == "build" and self.fault[1] == i:
            self.worlds.append(None)
            raise Stop("world %d" % i)
        W = self.build(i)
        self.worlds.append(W)
        real = W.exec_simulation

        def run(*a, **k):
            if self.fault and self.fault[0] == "exec" and self.fault[1] == i:
                real(duration_t2=W.DELTAT * self.fault[2])
                raise Stop("run %d" % i)
            r = real(*a, **k)
            self.done.append((i, W, record(W)))
            return r
        W.exec_simulation = run
        return W


def record(W):
    """The traffic in a world: what every vehicle did, and what the links recorded."""
    return dict(T=W.T, vehicles={n: dict(state=v.state, log=[[t, finger.nm(l)] for t, l in v.log_t_link]) for n, v in W.VEHICLES.items()},
                links={l.name: dict(A=finger.seq(l.cum_arrival), D=finger.seq(l.cum_departure), tt=finger.seq(l.traveltime_actual)) for l in W.LINKS})


def route_of(W, v):
    """(links, entry times) of one vehicle, from its passage log."""
    es = reports.entries(v)
    return [l.name for _, l in es], [t for t, _ in es]


def totals(W):
    n = c = 0
    tt = 0.0
    for v in W.VEHICLES.values():
        n += W.DELTAN
        t = reports.travel_time(W, v)
        if t is not None:
            c += W.DELTAN
            tt += t * W.DELTAN
    return n, c, tt


class Costs:
    """Route costs of an executed world, from the recorded link travel times, curves and the tolls."""

    def __init__(self, W, scn):
        self.W, self.dt, self.vague = W, W.DELTAT, False
        self.cpp = hasattr(W, "_cpp_world")
        self.L = {l.name: dict(l=l, tt=finger.seq(l.traveltime_actual), A=finger.seq(l.cum_arrival), D=finger.seq(l.cum_departure), free=l.length / l.u) for l in W.LINKS}
        self.toll = {l["name"]: scen.toll_fn(l["toll"]) if l.get("toll") else None for l in scn["links"]}

    def tt(self, name, t):
        a = self.L[name]["tt"]
        i = int(t // self.dt)
        return a[min(max(i, 0), len(a) - 1)]

    def due(self, route, t, at=None):
        c, toll = 0, 0
        for k, n in enumerate(route):
            x = self.tt(n, t)
            if self.toll[n]:
                z = at[k] if at else t
                if self.cpp:
                    z = min(int(z / self.dt), self.W.TSIZE - 1) * self.dt     # the compiled engine holds tolls per step
                toll += self.toll[n](z)
            c += x
            t += x
        return c + toll

    def ext(self, name, t):
        """Time the vehicles queuing behind a vehicle entering at t would save without it."""
        d = self.L[name]
        tt, A, D = d["tt"], d["A"], d["D"]
        s = int(t / self.dt)
        try:
            e = s
            for i in range(s, len(tt)):
                j = i + int(tt[i] / self.dt)
                if tt[i] > d["free"] * 1.01 and A[j] - D[j] > 0:
                    e = i
                else:
                    break
            n = A[e] - A[s]
            o = int(s + int(tt[s] / self.dt)) + 1
            lead = o
            for i in range(o, 0, -1):
                if D[i] < D[o]:
                    lead = i
                    break
            return (o - lead) * self.dt * n
        except IndexError:
            self.vague = True       # beyond the horizon the estimate is not defined (the engines differ)
            return 0

    def dso(self, route, t):
        c = 0
        for n in route:
            x = self.tt(n, t)
            c += x + self.ext(n, t)
            t += x
        return c


class C18(TwinProp):
    id = "C18"
    quick_n, thorough_n = 800, 20000
    case_limit = 120
    rule = ("one evaluation is one seeded search history of a solver (user equilibrium, day-to-day, genetic or neighbourhood search) on a seeded network, on either engine, some interrupted at a seeded evaluation and continued, "
            "each repeated with the same seeds and its worlds simulated again from the assigned routes; distinct_nontrivial counts distinct logged histories in which a route changed")
    want_probes = ["due", "d2d", "ga", "alns", "engine_cpp", "swapped", "infeasible_seen", "route_sets", "toll", "interrupted", "continued", "best_not_last", "full_swap", "started_at_solution", "figures"]
    real = TwinProp.real + ["uxsim/DTAsolvers/*", "uxsim/Utilities/Utilities.py"]
    stub = ["the global random generators (seeded)", "wall clock (simulated)"]
    assumptions = ["networks of 2-13 nodes, up to ~40 platoons, 2-8 iterations; route costs equal within %g count as equal" % TOL]
    opts = dict(families=["fork", "cross", "grid", "rand", "ring", "diverge", "merge", "sig"], p_signal=0.2, p_fcap=0.2, p_closed=0, p_unreach=0, n_ops=[0], vehicles=0, p_area=0, short=0, p_toll=0.5)

    def gen(self, rng, idx):
        kind = rng.choice(["due", "due", "d2d", "d2d", "d2d", "ga", "alns"])
        engine = "cpp" if kind in ("due", "d2d") and rng.random() < 0.4 else "py"
        o = dict(self.opts, platoons=rng.choice([8, 20, 40]), p_toll=rng.choice([0, 0.3, 0.9]))
        scn = scen.gen_case(rng, o)
        if engine == "cpp":
            cpp_case(scn)
        w = scn["world"]
        w["no_cyclic"] = False
        if rng.random() < 0.75:
            w["tmax"] = round(w["tmax"] * rng.choice([2, 3, 4]), 6)     # most trips should end
        w["log_interval"] = 1
        case = dict(scn=scn, engine=engine, kind=kind, iters=rng.choice([1, 2, 3, 4, 6, 9]), k=rng.choice([1, 2, 3, 6]), seed=rng.randrange(10 ** 6), vary=kind in ("due", "d2d") and rng.random() < 0.25)
        if kind in ("due", "d2d"):
            case["p"] = rng.choice([0.1, 0.3, 0.6, 1.0, 1.0])
            if kind == "d2d" and rng.random() < 0.3:
                case["num"] = rng.choice([0, 1, 2])
            if rng.random() < 0.3:
                case["sets"] = self.sets(rng, scn)
        elif kind == "ga":
            case["pop"] = rng.choice([4, 5, 8])
            case["elite"] = rng.choice([1, 2])
            case["init"] = rng.random() < 0.5
            case["iters"] = rng.choice([1, 2, 3])
        else:
            case["trials"] = rng.choice([1, 3, 5])
            case["init"] = rng.random() < 0.6
            case["always"] = rng.random() < 0.3
            case["iters"] = rng.choice([2, 5, 8])
        if rng.random() < 0.3:
            case["fault"] = [rng.choice(["build", "exec"]), rng.randrange(1, case["iters"] + 2), rng.randint(1, max(1, tsize(scn) // 2))]
        case["twice"] = rng.random() < 0.25
        case["draw"] = rng.random() < 0.4
        if kind in ("ga", "alns") and rng.random() < 0.5:
            w["tmax"] = round(w["tmax"] * rng.choice([0.4, 0.5, 0.6]), 6)      # many trips stay unfinished, not the same in every evaluation
            case["draw"] = True
        return case

    def sets(self, rng, scn):
        out = []
        for o, d in sorted({(x["o"], x["d"]) for x in scn["demands"] if x["kind"] == "od"}):
            rs = []
            for _ in range(rng.choice([1, 2, 4])):
                p = scen.random_path(scn, rng, o, d)
                if p and p not in rs:
                    rs.append(p)
            if not rs:
                return None
            out.append([o, d, rs])
        return out

    # -------------------------------------------------------------- one history
    def solver(self, ux, case, F):
        from uxsim.DTAsolvers import DTAsolvers as D
        k = case["kind"]
        if k == "due":
            return D.SolverDUE(F, cpp=True) if case["engine"] == "cpp" else D.SolverDUE(F)
        if k == "d2d":
            return D.SolverDSO_D2D(F, cpp=True) if case["engine"] == "cpp" else D.SolverDSO_D2D(F)
        return D.SolverDSO_GA(F) if k == "ga" else D.SolverDSO_ALNS(F)

    def solve(self, s, case, init=None):
        random.seed(case["seed"])
        np.random.seed(case["seed"] % 2 ** 31)
        k = case["kind"]
        sets = {(o, d): rs for o, d, rs in case["sets"]} if case.get("sets") else None
        if k == "due":
            return s.solve(case["iters"], n_routes_per_od=case["k"], swap_prob=case["p"], route_sets=sets, print_progress=case["seed"] % 2 == 0)
        if k == "d2d":
            return s.solve(case["iters"], n_routes_per_od=case["k"], swap_prob=case["p"], swap_num=case.get("num"), route_sets=sets, print_progress=case["seed"] % 2 == 0)
        if k == "ga":
            return s.solve(case["iters"], n_routes_per_od=case["k"], pop_size=case["pop"], elite_size=case["elite"], n_crossover_points=1, initial_solution_World=init, print_progress=False)
        return s.solve(case["iters"], n_routes_per_od=case["k"], trials=case["trials"], always_accept=case["always"], initial_solution_World=init, print_progress=False)

    def logs(self, case, s):
        d = dict(routes=s.route_log, costs=s.cost_log, ttts=s.ttts, links=[finger.table(x) for x in s.dfs_link])
        for k in ("n_swaps", "potential_swaps", "t_gaps"):
            if hasattr(s, k):
                d[k] = list(getattr(s, k))
        return d

    def initial(self, ux, case):
        """A solution to start from: the user equilibrium after one day."""
        from uxsim.DTAsolvers import DTAsolvers as D
        F = Factory(ux, case["scn"], case["engine"], False)
        random.seed(case["seed"] + 1)
        np.random.seed(1)
        return D.SolverDUE(F).solve(2, n_routes_per_od=case["k"], swap_prob=0.5, print_progress=False)

    def run(self, case, ctx):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.history(case, ctx)

    def history(self, case, ctx):
        scn, eng, kind, ux = case["scn"], case["engine"], case["kind"], ctx.ux
        probe = scen.build_world(ux, scn, eng)
        if len(probe.VEHICLES) < 3 or (kind == "alns" and max(v.departure_time for v in probe.VEHICLES.values()) <= 0):
            ctx.probe("too_small")
            return
        if case.get("num"):
            case = dict(case, num=min(case["num"], len(probe.VEHICLES)))
        ctx.probe(kind)
        ctx.probe("engine_" + eng)
        if any(l.get("toll") for l in scn["links"]):
            ctx.probe("toll")
        if case.get("sets"):
            ctx.probe("route_sets")
        init = self.initial(ux, case) if case.get("init") else None
        F = Factory(ux, scn, eng, case["vary"], case.get("fault"))
        s = self.solver(ux, case, F)
        hit = False
        try:
            sol = self.solve(s, case, init)
        except Stop as e:
            hit = True
            if not case.get("fault") or not str(e).endswith(" %d" % case["fault"][1]):
                fail("interrupt", "%s" % e)
            ctx.fault("interrupt-" + case["fault"][0])
            ctx.probe("interrupted")
            self.intermediate(case, s, F)
        if hit or case["twice"]:
            # the same solver goes on with a new search
            G = Factory(ux, scn, eng, case["vary"])
            s.func_World = G
            init2 = self.initial(ux, case) if case.get("init") else None
            sol2 = self.solve(s, case, init2)
            self.init = init2
            self.verify(case, ctx, s, G, sol2, "the second search")
            ctx.probe("continued")
            after = self.logs(case, s)
        else:
            self.init = init
            self.verify(case, ctx, s, F, sol, "the search")
            after = None
        first = None if hit else (self.logs(case, s) if after is None else after)
        # repeat with the same seeds on a fresh solver
        H = Factory(ux, scn, eng, case["vary"])
        h = self.solver(ux, case, H)
        init3 = self.initial(ux, case) if case.get("init") else None
        solh = self.solve(h, case, init3)
        d = finger.diff(after if after is not None else first, self.logs(case, h))
        if d:
            fail("repeat", "two searches with the same seeds differ%s: %s" % (" (the first by a solver that had searched before)" if after is not None else "", d))
        if after is None:
            for (i, W, r) in F.done:
                d = finger.diff(r, H.done[[x[0] for x in H.done].index(i)][2])
                if d:
                    fail("repeat", "two searches with the same seeds simulate different worlds at evaluation %d: %s" % (i, d))
        if case.get("draw"):
            self.figures(case, ctx, h)
        ctx.runs += len(F.worlds) + len(H.worlds)
        ctx.steps += sum(W.T for _, W, _ in F.done + H.done)
        ctx.simsec += sum(W.TIME for _, W, _ in F.done + H.done)
        self.record(ctx, self.logs(case, h))
        if any(h.n_swaps) if hasattr(h, "n_swaps") else True:
            ctx.probe("generated")

    # -------------------------------------------------------------- the figures of a search
    def figures(self, case, ctx, s):
        from .c27 import Figures, near
        kind = case["kind"]

        def draw(name, *a):
            with Figures() as F:
                try:
                    getattr(s, name)(*a)
                except Exception as e:
                    fail("figure", "%s%r of a search with %d evaluations: %s: %s" % (name, a, len(s.ttts), type(e).__name__, e))
            return [x for f in F.figs for x in f]

        def same(xs, ys):
            return len(xs) == len(ys) and all(near(a, b) for a, b in zip(xs, ys))

        axs = draw("plot_convergence")
        lines = [l for ax in axs for l in ax.lines]
        want = [("total travel times", s.ttts)]
        if kind in ("due", "d2d"):
            want += [("numbers of changes", s.n_swaps), ("gaps", s.t_gaps)]
        if kind == "alns":
            pts = []
            for l in lines:
                if l["mk"] == ".":
                    pts = list(zip(l["x"], l["y"]))
            if not pts or any(a[1] <= b[1] for a, b in zip(pts, pts[1:])) or any(not 0 <= i < len(s.ttts) for i, _ in pts):
                fail("figure", "plot_convergence shows the updates of the solution at %s" % pts)
            want.append(("updates", [y for _, y in pts]))
        if len(lines) != len(want):
            fail("figure", "plot_convergence shows %d lines instead of %d" % (len(lines), len(want)))
        for l, (n, w) in zip(lines, want):
            if not same(l["y"], w) or (n != "updates" and not same(l["x"], range(len(w)))):
                fail("figure", "plot_convergence shows the %s %s instead of %s" % (n, list(l["y"])[:6], list(w)[:6]))
        axs = draw("plot_link_stats")
        if len(axs) != 2:
            fail("figure", "plot_link_stats shows %d diagrams" % len(axs))
        for ax, col in zip(axs, ("traffic_volume", "average_travel_time")):
            got = {l["label"]: l["y"] for l in ax.lines}
            names = list(s.dfs_link[0]["link"])
            if sorted(got) != sorted(names):
                fail("figure", "plot_link_stats shows the %s of %s" % (col, sorted(got)))
            for n in names:
                w = [float(df[df["link"] == n][col].iloc[0]) for df in s.dfs_link]
                if not same(got[n], w):
                    fail("figure", "plot_link_stats shows the %s of %s as %s, they were %s" % (col, n, list(got[n])[:6], w[:6]))
        if s.W_sol is None:
            return
        V = s.W_sol.VEHICLES
        od = sorted({(v.orig.name, v.dest.name) for v in V.values()})[0]
        for o, d in ((None, None), (od[0], None), (None, od[1]), od):
            axs = draw("plot_vehicle_stats", o, d)
            got = sorted((float(x), float(y)) for ax in axs for l in ax.lines if l["mk"] == "x" for x, y in zip(l["x"], l["y"]))
            bars = sorted((float(min(p[:, 1])), float(max(p[:, 1])), float(p[0, 0])) for ax in axs for c in ax.fills for p in c)
            w, wb = [], []
            for k in s.route_log[0]:
                v = V[k]
                if (o is None or v.orig.name == o) and (d is None or v.dest.name == d):
                    t = v.departure_time_in_second
                    if kind == "d2d":
                        if reports.arrived_at(v) is not None:
                            w.append((t, reports.arrived_at(v) - reports.entries(v)[0][0]))
                        continue
                    c = [x[k] for x in s.cost_log[len(s.cost_log) // 2:] if k in x]
                    if c:
                        w.append((t, reports.mean(c)))
                        wb.append((reports.mean(c) - reports.std(c), reports.mean(c) + reports.std(c), t))
            if kind == "d2d" and len(got) > len(w):
                continue            # vehicles without arrival in the solution
            if len(got) != len(w) or any(not near(a[0], b[0]) or not near(a[1], b[1]) for a, b in zip(got, sorted(w))):
                fail("figure", "plot_vehicle_stats(%s, %s) shows %s..., the costs were %s..." % (o, d, got[:4], sorted(w)[:4]))
            if wb and (len(bars) != len(wb) or any(not all(near(x, y, 1e-5) for x, y in zip(a, b)) for a, b in zip(bars, sorted(wb)))):
                fail("figure", "plot_vehicle_stats(%s, %s) shows the spread %s..., it was %s..." % (o, d, bars[:3], sorted(wb)[:3]))
        ctx.probe("figures")
        if any(len(x) < len(s.route_log[0]) for x in s.route_log):
            ctx.probe("figures_unfinished")

    # -------------------------------------------------------------- the oracle
    def intermediate(self, case, s, F):
        """What an interrupted search leaves to the user."""
        kind = case["kind"]
        ev = [x for x in F.done if x[0] >= (1 if kind in ("due", "d2d") else 0)]
        W = s.W_intermid_solution
        if kind == "due":
            want = ev[-1][1] if ev else None
            if W is not want:
                fail("interrupt", "the interrupted search offers %s instead of the latest of its %d complete evaluations" % ("nothing" if W is None else "another world", len(ev)))
        elif kind == "d2d":
            self.best(ev, W, "the interrupted search offers")
        for i, X, r in F.done:
            d = finger.diff(r, record(X))
            if d:
                fail("touched", "the world of evaluation %d was changed by the interrupted search: %s" % (i, d))

    def best(self, ev, W, what):
        ok = []
        for i, X, r in ev:
            n, c, tt = totals(X)
            if c == n:
                ok.append((tt / n, X))
        if not ok:
            if W is not None:
                fail("best", "%s a world in which trips stay unfinished" % what)
            return
        if W is None:
            fail("best", "%s nothing although %d evaluated worlds finished all trips" % (what, len(ok)))
        mine = [t for t, X in ok if X is W]
        if not mine:
            fail("best", "%s a world that is none of the evaluated ones with all trips finished" % what)
        b = min(t for t, X in ok)
        if mine[0] > b + TOL * max(1, b):
            fail("best", "%s a world of average travel time %s; one of %s was evaluated" % (what, mine[0], b))

    def valid(self, route, o, d, links, what):
        if not route:
            fail("route", "%s: no route from %s to %s" % (what, o, d))
        if any(n not in links for n in route):
            fail("route", "%s: unknown link in %s" % (what, route))
        if links[route[0]]["a"] != o or links[route[-1]]["b"] != d or any(links[a]["b"] != links[b]["a"] for a, b in zip(route, route[1:])):
            fail("route", "%s: %s does not lead from %s to %s" % (what, route, o, d))

    def verify(self, case, ctx, s, F, sol, what):
        scn, kind = case["scn"], case["kind"]
        links = {l["name"]: l for l in scn["links"]}
        # ---- a new world for every evaluation, run once, and left alone afterwards
        ids = [id(w) for w in F.worlds]
        if len({i for i, _, _ in F.done}) != len(F.done):
            fail("evaluation", "%s: a world was run twice" % what)
        for i, W, r in F.done:
            d = finger.diff(r, record(W))
            if d:
                fail("touched", "%s changed the world of evaluation %d after it had run: %s" % (what, i, d))
            if W.T != tsize(scn) and W.VEHICLES_LIVING:
                fail("evaluation", "%s stopped the world of evaluation %d at step %d of %d" % (what, i, W.T, tsize(scn)))
        if s.W_sol is not sol:
            fail("solution", "%s returned another world than W_sol" % what)
        getattr(self, "verify_" + kind)(case, ctx, s, F, sol, what, links)
        if sol is not None:
            self.statistics(sol, what)

    def statistics(self, sol, what):
        n, c, tt = totals(sol)
        a = sol.analyzer
        if a.W is not sol:
            fail("statistics", "%s: the analyzer of the solution belongs to another world" % what)
        if a.trip_all != n or a.trip_completed != c or (c and abs(a.total_travel_time - tt) > 1e-6 * max(1, tt)):
            fail("statistics", "%s: the statistics of the solution say %s of %s trips, total %s; its vehicles say %s of %s, %s" % (what, a.trip_completed, a.trip_all, a.total_travel_time, c, n, tt))

    def check_log(self, case, i, W, s, k, what, only_finished=False):
        n, c, tt = totals(W)
        if c and s.ttts[k] != int(tt) and abs(s.ttts[k] - tt) > 1 + 1e-6 * tt:
            fail("log", "%s: total travel time %s logged for iteration %d, its world has %s" % (what, s.ttts[k], k, tt))
        rl, cl = s.route_log[k], s.cost_log[k]
        for nm, v in W.VEHICLES.items():
            r, ts = route_of(W, v)
            if only_finished and v.state != "end":
                if nm in rl:
                    fail("log", "%s: vehicle %s of iteration %d has not finished but is in the log" % (what, nm, k))
                continue
            if nm not in rl or list(rl[nm]) != r:
                fail("log", "%s: route %s logged for vehicle %s in iteration %d, it took %s" % (what, rl.get(nm), nm, k, r))
            if v.state == "end" and not v.flag_trip_aborted and abs(cl[nm] - (v.log_t_link[-1][0] - ts[0])) > 1e-9:
                fail("log", "%s: cost %s logged for vehicle %s in iteration %d, its trip took %s" % (what, cl[nm], nm, k, v.log_t_link[-1][0] - ts[0]))
        df = s.dfs_link[k]
        exp = reports.links(W)
        for row in df.to_dict("records"):
            e = exp[row["link"]]
            if row["traffic_volume"] != e["traffic_volume"] or abs(row["average_travel_time"] - e["average_travel_time"]) > 1e-6 * max(1, abs(e["average_travel_time"])):
                fail("log", "%s: link table of iteration %d says %s/%s for link %s, its world has %s/%s" % (what, k, row["traffic_volume"], row["average_travel_time"], row["link"], e["traffic_volume"], e["average_travel_time"]))

    def day_to_day(self, case, ctx, s, F, sol, what, links):
        """Common to the user equilibrium and the day-to-day optimum."""
        n_it = case["iters"]
        if len(F.worlds) != n_it + 1 or [i for i, _, _ in F.done] != list(range(1, n_it + 1)):
            fail("evaluation", "%s called the world function %d times and ran worlds %s for %d iterations" % (what, len(F.worlds), [i for i, _, _ in F.done], n_it))
        for a in (s.ttts, s.route_log, s.cost_log, s.n_swaps, s.potential_swaps, s.t_gaps, s.dfs_link):
            if len(a) != n_it:
                fail("log", "%s: a log has %d entries for %d iterations" % (what, len(a), n_it))
        sets = None
        prev = None
        for k, (i, W, r) in enumerate(F.done):
            self.check_log(case, i, W, s, k, what)
            rs = {od: [list(x) for x in v] for od, v in W.dict_od_to_routes.items()}
            if sets is None:
                sets = rs
                if case.get("sets"):
                    if rs != {(o, d): v for o, d, v in case["sets"]}:
                        fail("route set", "%s: the route sets given are not those used: %s" % (what, rs))
                else:
                    for od in {(v.orig.name, v.dest.name) for v in W.VEHICLES.values()}:
                        if not rs.get(od):
                            fail("route set", "%s: no route for the trips from %s to %s" % (what, od[0], od[1]))
                        for x in rs[od]:
                            self.valid(x, od[0], od[1], links, "route set")
                        if len(rs[od]) > case["k"] or len({tuple(x) for x in rs[od]}) < len(rs[od]):
                            fail("route set", "%s: %d routes asked, the set from %s to %s is %s" % (what, case["k"], od[0], od[1], rs[od]))
            elif rs != sets:
                fail("route set", "%s: the route set changed in iteration %d" % (what, k))
            C = Costs(W, case["scn"])
            cost = C.due if case["kind"] == "due" else C.dso
            pot_lo = pot_hi = 0
            assigned = {}
            for nm, v in W.VEHICLES.items():
                route, ts = route_of(W, v)
                od = (v.orig.name, v.dest.name)
                if prev is not None and nm in prev:
                    # follows what was assigned
                    opts, froze = prev[nm]
                    full = [x for x in opts if x[:len(route)] == route]
                    if not full or (v.state == "end" and route not in opts):
                        fail("route", "%s: vehicle %s takes %s on day %d; the day before left it %s" % (what, nm, route, k, opts))
                if v.state != "end":
                    continue
                self.valid(route, od[0], od[1], links, "vehicle %s on day %d" % (nm, k))
                if case.get("sets") and route not in sets[od]:
                    assigned[nm] = ([sets[od][0]], True)
                    continue
                t = ts[0]
                C.vague = False
                cur = C.due(route, t, ts) if case["kind"] == "due" else C.dso(route, t)
                alts = [(cost(x, t), x) for x in sets[od]]
                if C.vague:
                    ctx.probe("vague")
                    pot_hi += 1
                    assigned[nm] = ([route] + sets[od], False)
                    continue
                b = min(c for c, _ in alts)
                pot_lo += b < cur - TOL
                pot_hi += b < cur + TOL
                cheap = [x for c, x in alts if c < cur + TOL and c < b + TOL]
                if case.get("p") == 1.0 and case.get("num") is None and b < cur - TOL:
                    ctx.probe("full_swap")
                    assigned[nm] = (cheap, False)
                else:
                    assigned[nm] = ([route] + cheap, False)
            dn = W.DELTAN
            if not pot_lo * dn - TOL <= s.potential_swaps[k] <= pot_hi * dn + TOL:
                fail("cheaper", "%s: %s potential route changes reported on day %d; the costs give %d to %d" % (what, s.potential_swaps[k], k, pot_lo * dn, pot_hi * dn))
            if s.n_swaps[k] > s.potential_swaps[k] or s.n_swaps[k] < 0 or (case.get("num") is not None and s.n_swaps[k] > case["num"] * dn):
                fail("cheaper", "%s: %s route changes on day %d of %s potential ones" % (what, s.n_swaps[k], k, s.potential_swaps[k]))
            if s.t_gaps[k] < 0 or (s.t_gaps[k] > 0) != (s.potential_swaps[k] > 0):
                fail("cheaper", "%s: cost gap %s with %s potential route changes on day %d" % (what, s.t_gaps[k], s.potential_swaps[k], k))
            if s.n_swaps[k]:
                ctx.probe("swapped")
            n, c, tt = totals(W)
            if c < n:
                ctx.probe("infeasible_seen")
            if k + 1 < n_it:
                nxt = s.route_log[k + 1]
                moved = sum(1 for nm in assigned if not assigned[nm][1] and list(nxt[nm]) != route_of(W, W.VEHICLES[nm])[0] and F.done[k + 1][1].VEHICLES[nm].state == "end")
                if moved * dn > s.n_swaps[k] + TOL:
                    fail("cheaper", "%s: %d vehicles changed their routes after day %d, %s changes reported" % (what, moved * dn, k, s.n_swaps[k]))
            prev = assigned
        self.replay(case, ctx, F, what)

    def replay(self, case, ctx, F, what):
        """The evaluated worlds are what simulating the assigned routes gives."""
        rr = random.Random(case["seed"])
        pick = rr.sample(F.done, min(len(F.done), 2))
        for i, W, r in pick:
            X = F.build(i)
            for nm, v in X.VEHICLES.items():
                o = W.VEHICLES[nm]
                sp = o.specified_route if case["engine"] == "py" else (list(o._cpp_vehicle.specified_route) or None)
                if sp:
                    v.enforce_route([l.name for l in sp])
                elif case["engine"] == "py" and o.links_prefer:
                    v.set_links_prefer([l.name for l in o.links_prefer])
            X.exec_simulation()
            d = finger.diff(r, record(X))
            if d:
                fail("replay", "%s: simulating the routes assigned in evaluation %d gives another world: %s" % (what, i, d))

    def verify_due(self, case, ctx, s, F, sol, what, links):
        self.day_to_day(case, ctx, s, F, sol, what, links)
        if sol is not F.done[-1][1] or s.W_intermid_solution is not sol:
            fail("solution", "%s did not return the world of its last day" % what)

    def verify_d2d(self, case, ctx, s, F, sol, what, links):
        self.day_to_day(case, ctx, s, F, sol, what, links)
        self.best(F.done, sol, what + " returned")
        if sol is not None and sol is not F.done[-1][1]:
            ctx.probe("best_not_last")

    def objective(self, W):
        n, c, tt = totals(W)
        return (tt if c else -1) + (n - c) * W.TMAX

    def assigned(self, case, W, links, routes, what):
        for nm, v in W.VEHICLES.items():
            r = [l.name for l in v.links_prefer]
            if r not in [list(x) for x in routes[v.orig.name, v.dest.name]]:
                fail("route", "%s: route %s of vehicle %s is not in its route set" % (what, r, nm))
            self.valid(r, v.orig.name, v.dest.name, links, what)
            t, _ = route_of(W, v)
            if r[:len(t)] != t:
                fail("route", "%s: vehicle %s took %s instead of its route %s" % (what, nm, t, r))

    def evolution(self, case, ctx, s, F, sol, what, links, n0):
        ev = [x for x in F.done if x[0] >= n0]
        if sol is None or not any(sol is W for _, W, _ in ev):
            fail("solution", "%s returned none of the worlds it evaluated" % what)
        objs = [self.objective(W) for _, W, _ in ev]
        b = min(objs)
        mine = objs[[W is sol for _, W, _ in ev].index(True)]
        if mine > b + TOL * max(1, abs(b)):
            fail("best", "%s returned a solution of objective %s; one of %s was evaluated" % (what, mine, b))
        if mine < objs[-1] - TOL:
            ctx.probe("best_not_last")
        routes = sol.dict_od_to_routes
        if self.init is not None:
            self.scn_of, self.kind_of = case["scn"], case["kind"]
            self.starts_at(ev[0][1], self.init, what)
            ctx.probe("started_at_solution")
        for i, W, r in ev:
            self.assigned(case, W, links, routes, "evaluation %d of %s" % (i, what))
            n, c, tt = totals(W)
            if c < n:
                ctx.probe("infeasible_seen")
        self.replay(case, ctx, F, what)
        return ev, objs

    def starts_at(self, W, init, what):
        """The first evaluation gives every vehicle the route it took in the initial solution, where that is in the route set, and else a quickest one."""
        C = Costs(init, self.scn_of)
        routes = init.dict_od_to_routes
        for nm, v in W.VEHICLES.items():
            o = init.VEHICLES[nm]
            r0, ts = route_of(init, o)
            got = [l.name for l in v.links_prefer]
            rs = [list(x) for x in routes[v.orig.name, v.dest.name]]
            if r0 in rs:
                if got != r0:
                    fail("start", "%s: vehicle %s took %s in the initial solution, the search starts with %s" % (what, nm, r0, got))
            elif o.state == "end" and self.kind_of == "alns":
                def tt(r):
                    t = t0 = o.departure_time_in_second
                    for n in r:
                        t += C.tt(n, t)
                    return t - t0
                b = min(tt(r) for r in rs)
                if tt(got) > b + TOL:
                    fail("start", "%s: vehicle %s starts on %s (%s s); its quickest route takes %s s" % (what, nm, got, tt(got), b))

    def verify_ga(self, case, ctx, s, F, sol, what, links):
        n0 = 0 if case.get("init") else 1
        P, n = case["pop"], case["iters"]
        ev, objs = self.evolution(case, ctx, s, F, sol, what, links, n0)
        if len(ev) != P * n or len(F.worlds) != P * n + n0:
            fail("evaluation", "%s evaluated %d worlds of %d built for %d generations of %d" % (what, len(ev), len(F.worlds), n, P))
        for a in (s.ttts, s.route_log, s.cost_log, s.dfs_link):
            if len(a) != n:
                fail("log", "%s: a log has %d entries for %d generations" % (what, len(a), n))
        last = None
        for g in range(n):
            o = objs[g * P:(g + 1) * P]
            b = min(o)
            if last is not None and b > last + TOL:
                fail("best", "%s lost its elite: best objective %s in generation %d, %s before" % (what, b, g, last))
            last = b
            i, W, r = ev[g * P + o.index(b)]
            self.check_log(case, i, W, s, g, what, only_finished=True)

    def verify_alns(self, case, ctx, s, F, sol, what, links):
        n0 = 0 if case.get("init") else 1
        ev, objs = self.evolution(case, ctx, s, F, sol, what, links, n0)
        for a in (s.ttts, s.route_log, s.cost_log, s.dfs_link):
            if len(a) != len(ev):
                fail("log", "%s: a log has %d entries for %d evaluations" % (what, len(a), len(ev)))
        for k, (i, W, r) in enumerate(ev):
            self.check_log(case, i, W, s, k, what, only_finished=True)
        if abs(s.best_obj[-1] - min(objs)) > 1e-6 * max(1, abs(min(objs))):
            fail("best", "%s: best objective %s reported, %s evaluated" % (what, s.best_obj[-1], min(objs)))


PROP = C18()
