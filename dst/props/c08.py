"""C08: running in pieces gives the same result as running at once."""
from .. import finger, scen
from ._lock import fail
from ._twin import TwinProp, amount, build, call, drive, same, tsize, ENDTABLES


class C08(TwinProp):
    id = "C08"
    quick_n, thorough_n = 2000, 60000
    rule = ("one evaluation is one seeded scenario run twice with the same seed, once with execution calls as long as possible and once divided at seeded points by seeded kinds of calls, "
            "with rejected and superfluous calls in between; distinct_nontrivial counts distinct digests of final records with vehicles in the network")
    want_probes = ["pieces", "rejected", "after_end", "single_call_reference", "tiny_horizon", "whole_by_pieces_of_one", "inexact_step"]

    def world_over(self, rng, engine):
        o = {}
        if rng.random() < 0.06:
            o["deltan"], o["reaction_time"] = rng.choice([1, 2, 5]), 1
            o["tmax"] = o["deltan"] * rng.choice([1, 1.5, 2, 3.2, 6])
        elif rng.random() < 0.15:
            # steps whose length is no binary fraction
            o["deltan"], o["reaction_time"] = rng.choice([1, 2, 3, 5]), rng.choice([0.7, 1.1, 1.2, 0.3])
            o["tmax"] = round(rng.randint(30, 120) * o["deltan"] * o["reaction_time"] + rng.choice([0, 0.2]), 6)
        return o

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        if rng.random() < 0.5 or n < 8:
            scn["ops"] = []
        scn["ops"] = [o for o in scn["ops"] if o[0] < n]
        scn["world"]["log_interval"] = rng.choice([1, 1, 1, 3])
        if n < 8:
            scn["vehicles"] = []
        z = rng.random()
        if z < 0.2:
            plan = [["dur2", 1, 0]]
        else:
            plan = [[rng.choice(["until", "dur2", "dur"]), rng.choice([1, 1, 2, 3, 5, 9, 20]), rng.choice([0, 0, 0.25, 0.75])] for _ in range(rng.randint(2, 9))]
        case["plan"] = plan
        # calls that must be refused: [before step, kind]
        case["bad"] = sorted([rng.randrange(0, n + 1) if n else 0, rng.choice(["past", "zero2", "neg", "neg2"])] for _ in range(rng.choice([0, 1, 3])))
        case["after"] = [[rng.choice(["plain", "until", "until", "dur", "dur2"]), rng.choice([0, 0, 1, 1, 2, 3, 7, 1000]), rng.choice([0, 0, 0.5])] for _ in range(rng.choice([0, 2, 4]))]
        case["spy"] = rng.random() < 0.6 and engine == "py"

    def refused(self, W, kind, ctx):
        t, time, fin = W.T if W.finalized else None, W.TIME if W.finalized else None, W.finalized
        if not W.finalized:
            return
        n = W.TSIZE
        DT = W.DELTAT
        kw = dict(past=dict(until_t=(t - 1) * DT), zero2=dict(duration_t2=0.5 * DT), neg=dict(duration_t=-DT), neg2=dict(duration_t2=-DT))[kind]
        if kind == "past" and t == 0:
            return
        before = finger.world(W, self.engine, guide=False)
        try:
            r = W.exec_simulation(**kw)
        except Exception:
            ctx.probe("rejected")
        else:
            fail("accepted", "exec_simulation(%s) at step %d of %d was accepted and returned %r" % (kw, t, n, r))
        same(before, finger.world(W, self.engine, guide=False), "rejected-call", "after a refused exec_simulation(%s) at step %d" % (kw, t))

    def run(self, case, ctx):
        scn, eng = case["scn"], case["engine"]
        self.engine = eng
        n = tsize(scn)
        seen = []
        A = build(ctx.ux, scn, eng, case["rng"])
        B = build(ctx.ux, scn, eng, case["rng"])
        if case["spy"]:
            A.user_function = lambda W: None
            B.user_function = lambda W: seen.append(W.T)
        drive(A, scn)
        if not scn["ops"]:
            ctx.probe("single_call_reference")
        if n < 8:
            ctx.probe("tiny_horizon")
        bad = [list(x) for x in case["bad"]]

        def pause(t):
            ctx.probe("pieces")
            while bad and bad[0][0] <= t:
                self.refused(B, bad.pop(0)[1], ctx)
        drive(B, scn, plan=case["plan"], pause=pause)
        if case["plan"] == [["dur2", 1, 0]]:
            ctx.probe("whole_by_pieces_of_one")
        ctx.probe("inexact_step", int(B.DELTAT * 64 != int(B.DELTAT * 64)))
        while bad:
            self.refused(B, bad.pop(0)[1], ctx)
        if case["spy"] and seen != list(range(n)):
            fail("steps", "the steps executed are %s instead of each of 0..%d once" % (seen[:80], n - 1))
        tabs = ENDTABLES if scn["world"]["log_interval"] == 1 else ("od_to_pandas", "link_to_pandas", "basic_to_pandas")
        a = finger.world(A, eng, tables=tabs)
        b = finger.world(B, eng, tables=tabs)
        same(a, b, "pieces", "run at once / in pieces (%s)" % eng)
        for kind, k, frac in case["after"]:
            kw = {}
            if kind == "until":
                kw = dict(until_t=amount(n + k, frac, B.DELTAT, 0))
            elif kind == "dur":
                kw = dict(duration_t=(k + frac) * B.DELTAT)
            elif kind == "dur2":
                kw = dict(duration_t2=(k + 1 + frac) * B.DELTAT)
            r = B.exec_simulation(**kw)
            ctx.probe("after_end")
            if r != 1 or B.T != n:
                fail("after-end", "exec_simulation(%s) after the end returned %r, step %s of %d" % (kw, r, B.T, n))
        if case["after"]:
            same(b, finger.world(B, eng, tables=tabs), "after-end", "executing again after the end changed the world")
        self.record(ctx, a)
        self.count(ctx, A, scn, eng, 2)


PROP = C08()
