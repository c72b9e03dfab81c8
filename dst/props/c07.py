"""C07: a run is a pure function of its scenario and seed; worlds are isolated."""
import random
import numpy as np
from .. import env, finger, scen
from ._lock import cpp_case, fail
from ._twin import TwinProp, build, call, drive, same, tsize, quiet, ENDTABLES


class C07(TwinProp):
    id = "C07"
    quick_n, thorough_n = 1200, 60000
    det_violation = True
    det_n = 40
    rule = ("one evaluation is one seeded scenario run undisturbed and again while the wall clock jumps, the process-wide random generators are reseeded and drawn from, progress is printed and other "
            "worlds are built, stepped and reconfigured between its steps (and, in fully deterministic mode, with another seed); all records must agree exactly; a sample is repeated in a fresh interpreter with another hash seed")
    want_probes = ["interleaved_worlds", "other_world_reconfigured", "progress_printed", "clock_jumps", "global_random_disturbed", "other_seed_hard", "second_run_after", "other_same_scenario"]

    def world_over(self, rng, engine):
        o = {}
        if rng.random() < 0.35:
            o["hard"] = True
        return o

    def tweak(self, rng, scn, engine, case):
        case["dist"] = dict(clock=rng.choice([None, [3600, -7200, 0, 1e-3], [0, 0, -1], [86400]]), rnd=rng.random() < 0.7, prt=rng.random() < 0.5, seed=rng.randrange(10 ** 6))
        others = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.35:
                others.append(dict(same=True, seed=rng.randrange(1, 10 ** 6), engine=engine if rng.random() < 0.7 or scn["world"]["rcp"] != "homogeneous_DUO" else ("cpp" if engine == "py" else "py"),
                                   reconf=[[rng.randint(1, 40), rng.choice(["cap_out", "cap_in", "speed", "kappa", "signal", "mp", "list_sg", "list_sig", "hard", "weight"]), rng.random()] for _ in range(rng.choice([0, 3, 8]))]))
            else:
                e2 = rng.choice(["py", "cpp"])
                s2 = scen.gen_case(rng, dict(n_ops=[0, 4]))
                if e2 == "cpp":
                    cpp_case(s2)
                scen.fix_signal_ops(s2)
                others.append(dict(same=False, scn=s2, engine=e2, reconf=[[rng.randint(1, 40), rng.choice(["list_sg", "list_sig", "speed", "cap_in"]), rng.random()] for _ in range(rng.choice([0, 3]))]))
        case["others"] = others
        if rng.random() < 0.5:
            # signal groups left at their default
            for l in scn["links"]:
                if l.get("sg") and rng.random() < 0.6:
                    del l["sg"]
        case["order"] = rng.choice(["ab", "ba"])
        case["third"] = rng.random() < 0.4
        case["seed2"] = rng.randrange(1, 10 ** 6)
        if rng.random() < 0.3:
            case["rng"] = None

    def reconf(self, W, what, z, ctx):
        """Changes one thing of another world, partly by mutating in place what its attributes refer to."""
        L = W.LINKS[int(z * len(W.LINKS)) % len(W.LINKS)]
        N = W.NODES[int(z * len(W.NODES)) % len(W.NODES)]
        ctx.probe("other_world_reconfigured")
        if what == "cap_out":
            L.capacity_out = 0.01 + z
        elif what == "cap_in":
            L.capacity_in = 0.01 + z
        elif what == "speed":
            L.change_free_flow_speed(max(1.0, L.u * (0.3 + 0.7 * z)))
        elif what == "kappa":
            L.change_jam_density(L.kappa * (0.8 + 0.2 * z))
        elif what == "mp":
            L.merge_priority = z
        elif what == "signal":
            if len(N.signal) > 1:
                N.override_signal([max(1.0, 60 * z)] * len(N.signal), reset=True)
        elif what == "list_sg":
            L.signal_group.append(1)
        elif what == "list_sig":
            if len(N.signal) > 1:
                N.signal[0] = N.signal[0] + 5
        elif what == "hard":
            W.hard_deterministic_mode = not W.hard_deterministic_mode
        elif what == "weight":
            W.DUO_UPDATE_WEIGHT = z

    def plain(self, ctx, case, **over):
        W = build(ctx.ux, case["scn"], case["engine"], case["rng"], **over)
        drive(W, case["scn"], step1=True)
        return W

    def disturbed(self, ctx, case):
        scn, eng, d = case["scn"], case["engine"], case["dist"]
        r = random.Random(d["seed"])
        if d["rnd"]:
            random.seed(d["seed"])
            np.random.seed(d["seed"])
            ctx.probe("global_random_disturbed")
        if d["clock"]:
            env.CLOCK.plan = d["clock"]
            ctx.probe("clock_jumps")
            ctx.fault("clock-jump", len(d["clock"]))
        over = {}
        if d["prt"]:
            over = dict(print_mode=1, show_progress=1, show_progress_deltat=3 * scn["world"]["deltan"] * scn["world"]["reaction_time"])
            ctx.probe("progress_printed")
        others = []

        def start(o):
            s2 = dict(scn if o["same"] else o["scn"])
            if o["same"]:
                if o["engine"] != eng:
                    s2 = cpp_case(__import__("copy").deepcopy(s2))
                ctx.probe("other_same_scenario")
                W2 = build(ctx.ux, s2, o["engine"], None, seed=o["seed"])
            else:
                W2 = build(ctx.ux, s2, o["engine"], None)
            others.append((W2, s2, o))
        with quiet():
            for o in case["others"][:1]:
                start(o)
            W = build(ctx.ux, scn, eng, case["rng"], **over)
            for o in case["others"][1:]:
                start(o)

            def pause(t):
                if d["rnd"]:
                    random.random()
                    np.random.rand()
                    if t % 7 == 3:
                        random.seed(t)
                        np.random.seed(t)
                        ctx.fault("global-random")
                for W2, s2, o in others:
                    n2 = tsize(s2)
                    t2 = W2.T if W2.finalized else 0
                    for k in range(r.choice([0, 1, 1, 3])):
                        t2 = W2.T if W2.finalized else 0
                        if t2 >= n2:
                            break
                        for op in s2["ops"]:
                            if op[0] == t2:
                                scen.apply_op(W2, op)
                        for q in o["reconf"]:
                            if q[0] == t2:
                                self.reconf(W2, q[1], q[2], ctx)
                        W2.exec_simulation(duration_t2=W2.DELTAT)
                        ctx.probe("interleaved_worlds")
                        ctx.fault("foreign-step")
            drive(W, scn, step1=True, pause=pause)
        env.CLOCK.plan = None
        return W

    def run(self, case, ctx):
        scn, eng = case["scn"], case["engine"]
        recs = {}
        for which in case["order"]:
            W = self.plain(ctx, case) if which == "a" else self.disturbed(ctx, case)
            recs[which] = finger.world(W, eng, tables=ENDTABLES)
            self.count(ctx, W, scn, eng)
        same(recs["a"], recs["b"], "impure", "the same scenario and seed undisturbed / next to other activity (%s)" % eng)
        if case["third"]:
            W = self.plain(ctx, case)
            ctx.probe("second_run_after")
            same(recs["a"], finger.world(W, eng, tables=ENDTABLES), "rerun", "first / later run of the same scenario and seed in one process (%s)" % eng)
        if scn["world"].get("hard"):
            ctx.probe("other_seed_hard")
            s0 = self.plain(ctx, dict(case, rng=None)) if case["rng"] else None
            a = finger.world(s0, eng) if s0 else recs["a"]
            W = self.plain(ctx, dict(case, rng=None), seed=case["seed2"])
            b = finger.world(W, eng)
            for k in ("vehicles", "links", "nodes", "living", "running"):
                x, y = self.undemand(a[k]), self.undemand(b[k])
                if x is None:
                    continue
                if not self.random_demand(scn):
                    same(x, y, "seed-matters", "fully deterministic mode with seeds %s and %s (%s), %s" % (scn["world"]["seed"], case["seed2"], eng, k))
        self.record(ctx, recs["a"])

    @staticmethod
    def undemand(x):
        return x

    @staticmethod
    def random_demand(scn):
        return any(d["kind"] in ("a2a2", "n2n2") for d in scn["demands"])


PROP = C07()
