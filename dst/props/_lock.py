"""Common driver of the properties decided step by step: seeded scenarios with a seeded fault schedule,
run under adversarial randomness in lockstep with the reference model, plus model-free invariants."""
from .. import scen
from ..prop import Prop, Violation
from ..sim import Sim, kinds_of


def patch_vehicles(s, case):
    """Tells the model of a C++ run the constraints of explicitly added vehicles (the wrapper does not expose them)."""
    if s.engine == "cpp" and s.model and case.get("vehicles"):
        names = list(s.W.VEHICLES)[-len(case["vehicles"]):]
        for nm, v in zip(names, case["vehicles"]):
            s.patch_cpp(nm, v)


def cpp_case(scn):
    """Restricts a case to what the compiled engine supports."""
    scn["world"]["rcp"] = "homogeneous_DUO"
    scn["ops"] = [o for o in scn["ops"] if o[1] != "toll"]
    return scn


class LockProp(Prop):
    ext = "plain"
    cpp_share = 0.3
    quick_n, thorough_n = 3000, 150000
    rule = ("one evaluation is one seeded scenario (network, demand, vehicles, fault schedule) run step by step on one engine under seeded, partly adversarial "
            "random decisions, compared with the reference model after every step and checked by the property's own invariants; "
            "distinct_nontrivial counts distinct digests of complete vehicle histories in which vehicles entered the network")
    real = ["uxsim/uxsim.py (World, Node, Link, Vehicle, RouteChoice)", "uxsim/uxsim_cpp_wrapper.py", "uxsim/trafficpp/* (compiled from the current tree)", "uxsim/utils.py"]
    stub = ["random generator of the Python world (seeded, partly adversarial, only outcomes of positive probability)", "wall clock (simulated)"]
    assumptions = ["scenarios of 2-13 nodes, up to ~90 platoons and 40-110 steps", "comparisons within 1e-6 of a metre or second; capacity and room thresholds within 1e-9 may go either way",
                   "the compiled engine is driven with one thread here (interleavings are C10)"]
    opts = {}

    def kinds(self):
        return kinds_of(self.id)

    def make_opts(self, rng, engine):
        o = dict(short=0.1 if engine == "py" else 0)
        o.update(self.opts)
        return o

    def world_over(self, rng, engine):
        return {}

    def tweak(self, rng, scn, engine):
        pass

    def gen(self, rng, idx):
        engine = "cpp" if rng.random() < self.cpp_share else "py"
        scn = scen.gen_case(rng, self.make_opts(rng, engine), **self.world_over(rng, engine))
        if engine == "cpp":
            cpp_case(scn)
        self.tweak(rng, scn, engine)
        scen.fix_signal_ops(scn)
        return dict(scn=scn, engine=engine, rng=dict(seed=rng.randrange(10 ** 6), bias=rng.choice([0, 0.3, 0.9]), mode=rng.choice(["mix", "mix", "first", "last"])), chunk=rng.choice([0, 3, 1000]))

    def hooks(self, s, case, ctx):
        return []

    def start(self, s, case, ctx):
        pass

    def finish(self, s, case, ctx):
        pass

    def run(self, case, ctx):
        s = Sim(ctx.ux, case["scn"], case["engine"], rng=case.get("rng"), chunk=case.get("chunk", 0))
        patch_vehicles(s, case["scn"])
        ctx.probe("engine_" + case["engine"])
        self.start(s, case, ctx)
        s.hooks = self.hooks(s, case, ctx)
        try:
            s.run(self.kinds())
        finally:
            ctx.note("executed %d steps, vehicles %s" % (s.T + 1, {st: sum(1 for v in (s.last_obs.veh.values() if s.last_obs else []) if v[0] == st) for st in ("home", "wait", "run", "end", "abort")}))
            for o in case["scn"].get("ops", []):
                if o[0] <= s.T:
                    ctx.note("fault before step %d: %s" % (o[0], o[1:]))
        self.finish(s, case, ctx)
        ctx.take(s)


def fail(kind, msg):
    raise Violation(kind, msg)
