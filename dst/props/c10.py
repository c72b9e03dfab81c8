"""C10: the compiled engine's results do not depend on threads or their interleaving."""
import json, os
from .. import finger, scen, simthr
from ..env import CLOCK
from ..sim import SimRng
from ._lock import fail, cpp_case
from ._twin import TwinProp, build, drive, same, tsize, ENDTABLES


class C10(TwinProp):
    id = "C10"
    ext = "simthr"
    quick_n, thorough_n = 1500, 40000
    case_limit = 120
    rule = ("one evaluation is one seeded scenario executed by the compiled engine with one thread and then under several seeded schedules of 2-8 threads; "
            "distinct_nontrivial counts distinct combinations of final record and schedules with vehicles in the network")
    state_measure = "hash of the complete sequence of scheduling decisions (region, event, thread) of each run"
    want_probes = ["switches", "team_reduced", "schedule_random", "schedule_pct", "schedule_rr", "schedule_reverse", "schedule_perm", "threads_default", "gradual", "routes", "signals", "multilane", "parallel_links"]
    real = ["uxsim/trafficpp/* (compiled from the current tree with every memory access instrumented)", "uxsim/uxsim_cpp_wrapper.py", "uxsim/analyzer.py"]
    stub = ["OpenMP runtime and thread scheduler (simomp/): one thread runs at a time, the seed decides which", "wall clock (simulated)"]
    assumptions = ["teams of up to 8 threads", "sequentially consistent memory: reorderings of the hardware are covered through the absence of data races only",
                   "accesses inside the C++ runtime library's own compiled code are not seen (templates instantiated in the engine are)"]

    def prepare(self, ux):
        self.st = simthr.SimThr(ux.uxsim_cpp.__file__)

    def gen(self, rng, idx):
        scn = scen.gen_case(rng, dict(p_area=0.1, n_ops=[0, 3, 8], lanes=[1, 1, 2, 3], p_signal=0.35, p_fcap=0.2, platoons=rng.choice([15, 40, 90])))
        cpp_case(scn)
        scen.fix_signal_ops(scn)
        if rng.random() < 0.3:
            scn["world"]["gradual"] = True
        scn["world"]["tmax"] = round(scn["world"]["tmax"] * rng.choice([0.3, 0.5, 0.8, 1]), 6)
        n = tsize(scn)
        scn["ops"] = [o for o in scn["ops"] if o[0] < n]
        runs = []
        for _ in range(rng.choice([2, 3, 4])):
            k = rng.choice([2, 2, 3, 4, 5, 8, -1])
            runs.append([k, simthr.gen_sched(rng, k)])
        return dict(scn=scn, engine="cpp", runs=runs, routes=rng.random() < 0.15)

    def record_of(self, W, case):
        d = finger.world(W, "cpp", tables=ENDTABLES)
        if case.get("routes"):
            d["routes"] = sorted((list(k), [list(r) for r in v]) for k, v in self.routes(W).items())
        return d

    def routes(self, W):
        return W._cpp_world.enumerate_k_random_routes_cpp(3, W.random_seed)

    def one(self, ux, case, threads):
        return simthr.fresh(self.one_, ux, case, threads)

    def one_(self, ux, case, threads):
        W = build(ux, case["scn"], "cpp", threads=threads)
        drive(W, case["scn"])
        return W, self.record_of(W, case)

    def run(self, case, ctx):
        st = self.st
        scn = case["scn"]
        st.start(dict(mode="seq", max=1))
        W, ref = self.one(ctx.ux, case, 1)
        self.count(ctx, W, scn, "cpp")
        self.features(scn, ctx)
        if case.get("routes"):
            ctx.probe("routes")
        h = finger.digest(ref)
        ctx.feed(h)
        for threads, sched in case["runs"]:
            st.start(sched)
            ctx.trace[:] = ["THREADS %s" % threads]
            try:
                V, got = self.one(ctx.ux, case, threads)
            finally:
                self.noted(ctx, sched)
            what = "%d threads, schedule %s" % (threads, {k: v for k, v in sched.items() if k != "list"} if "list" not in sched else "of %d decisions" % len(sched["list"]))
            self.took(ctx, threads, sched, V)
            r = st.races()
            if r:
                fail("race", "%s: unordered conflicting accesses: %s" % (what, st.describe(r[0])))
            same(ref, got, "interleaving", "1 thread / %s" % what)

    def noted(self, ctx, sched):
        ctx.trace.append("SCHED " + json.dumps(dict(list=self.st.trace(), cap=sched.get("cap", 0), seed=sched.get("seed", 1), max=sched.get("max", 4))))

    def took(self, ctx, threads, sched, W):
        s = self.st.stats()
        ctx.runs += 1
        ctx.steps += W.T
        ctx.simsec += W.T * W.DELTAT
        ctx.probe("parallel_regions", s["regions"])
        ctx.probe("instrumented_accesses", s["events"])
        ctx.fault("preempt", s["switches"])
        ctx.probe("switches", s["switches"])
        ctx.probe("barriers", s["barriers"])
        if s["teamcut"]:
            ctx.probe("team_reduced", s["teamcut"])
            ctx.fault("fewer-threads-granted", s["teamcut"])
        ctx.probe("schedule_" + sched.get("mode", "list"))
        if threads == -1:
            ctx.probe("threads_default")
        ctx.states.add("%x" % s["hash"])
        ctx.feed(str(s["hash"]))

    def features(self, scn, ctx):
        if scn["world"].get("gradual"):
            ctx.probe("gradual")
        if any(n.get("signal") for n in scn["nodes"]):
            ctx.probe("signals")
        if any(l.get("lanes", 1) > 1 for l in scn["links"]):
            ctx.probe("multilane")
        e = [(l["a"], l["b"]) for l in scn["links"]]
        if len(set(e)) < len(e):
            ctx.probe("parallel_links")

    # ---- minimisation: first the scenario, then the schedule as an explicit list of decisions
    def shrink(self, case):
        if len(case["runs"]) > 1:
            for r in case["runs"]:
                yield dict(case, runs=[r])
        if len(case["runs"]) == 1:
            k, s = case["runs"][0]
            for j in (2, 3):
                if k > j or k == -1:
                    yield dict(case, runs=[[j, s]])
            if s.get("cap"):
                yield dict(case, runs=[[k, dict(s, cap=0)]])
            if "list" not in s:
                if s["mode"] != "reverse":
                    yield dict(case, runs=[[k, dict(mode="reverse", seed=1)]])
                if s["mode"] == "random":
                    yield dict(case, runs=[[k, dict(s, p=s["p"] / 8)]])
            else:
                L = s["list"]
                size = len(L)
                while size >= 1:
                    for i in range(0, len(L), size):
                        yield dict(case, runs=[[k, dict(s, list=L[:i] + L[i + size:])]])
                    size //= 2
        for x in TwinProp.shrink(self, case):
            yield x

    def freeze(self, case, res):
        """The failing schedule as an explicit list."""
        if len(case["runs"]) != 1 or "list" in case["runs"][0][1]:
            return None
        for t in res.get("trace") or []:
            if t.startswith("SCHED "):
                s = json.loads(t[6:])
                return dict(case, runs=[[case["runs"][0][0], s]])
        return None


PROP = C10()
