"""C11: a failing vehicle in the compiled engine fails deterministically and safely."""
import json
from .. import finger, scen, simthr
from ._lock import fail, cpp_case
from ._twin import TwinProp, build, drive, same, tsize, ENDTABLES
from .c10 import C10


class C11(C10):
    id = "C11"
    quick_n, thorough_n = 2400, 40000
    rule = ("one evaluation is one seeded scenario with vehicles whose routes become impossible at seeded places, executed by the compiled engine with one thread and under several seeded schedules of 2-8 threads, "
            "in one call or in pieces; distinct_nontrivial counts distinct combinations of error, step and schedules")
    want_probes = ["error_at_origin", "error_on_the_way", "error_exhausted", "error_avoid", "several_bad", "no_error_despite_bad", "clean", "switches", "bystander_world", "continued_after_error", "same_step_several"]
    assumptions = C10.assumptions + ["the state of the failed world beyond its clock and the readability of its vehicles is left open"]

    def gen(self, rng, idx):
        case = C10.gen(self, rng, idx)
        case["routes"] = False
        scn = case["scn"]
        # 'veh' interventions and vehicles given avoid lists stay: they are valid
        n = rng.choice([0, 1, 1, 2, 3, 6])
        bad = []
        for _ in range(n):
            b = self.bad_vehicle(rng, scn)
            if b:
                bad.append(b)
        if len(bad) > 1 and rng.random() < 0.4:
            for b in bad:
                b["t"] = bad[0]["t"]
        case["bad"] = bad
        case["plan"] = None if rng.random() < 0.5 else [["dur2", rng.choice([1, 3, 10]), 0]]
        case["more"] = rng.random() < 0.3
        case["bystander"] = rng.random() < 0.3
        return case

    @staticmethod
    def bad_vehicle(rng, scn):
        out = scen.adjacency(scn)
        links = {l["name"]: l for l in scn["links"]}
        srcs = sorted(n for n in out if out[n])
        for _ in range(20):
            o = rng.choice(srcs)
            r = sorted(x for x in scen.reach(scn, o) if x != o)
            if not r:
                continue
            d = rng.choice(r)
            p = scen.random_path(scn, rng, o, d)
            if not p:
                continue
            t = round(rng.choice([0, rng.random() * scn["world"]["tmax"] * 0.5]), 3)
            kind = rng.choice(["swap", "swap", "short", "avoid"])
            if kind == "swap":
                k = rng.randrange(len(p))
                at = o if k == 0 else links[p[k - 1]]["b"]
                other = [l["name"] for l in scn["links"] if l["a"] != at]
                if not other:
                    continue
                return dict(o=o, d=d, t=t, route=p[:k] + [rng.choice(other)] + p[k + 1:], good=k)
            if kind == "short":
                if len(p) < 2:
                    continue
                k = rng.randrange(1, len(p))
                return dict(o=o, d=d, t=t, route=p[:k], good=k)
            k = rng.randrange(len(p))
            at = o if k == 0 else links[p[k - 1]]["b"]
            if at == d:
                continue
            # every exit of one node on the way is avoided (the vehicle may come there or not)
            return dict(o=o, d=d, t=t, avoid=[l["name"] for l in out[at]], at=at)
        return None

    def add_bad(self, W, bad):
        for i, b in enumerate(bad):
            kw = {}
            if b.get("avoid"):
                kw["links_avoid"] = list(b["avoid"])
            v = W.addVehicle(b["o"], b["d"], b["t"], name="bad%d" % i, **kw)
            if b.get("route"):
                v.enforce_route(list(b["route"]))

    def attempt(self, ux, case, threads):
        return simthr.fresh(self.attempt_, ux, case, threads)

    def attempt_(self, ux, case, threads):
        scn = case["scn"]
        W = build(ux, scn, "cpp", threads=threads)
        self.add_bad(W, case["bad"])
        err = None
        try:
            drive(W, scn, plan=case["plan"])
        except (IndexError, ValueError, RuntimeError) as e:
            err = [type(e).__name__, str(e)]
            # the world of the error can still be read
            for v in W.VEHICLES.values():
                str(v.state), v.link, v.x
            for l in W.LINKS:
                l.num_vehicles, l.cum_arrival
            if W._cpp_world.timestep != W.T:
                fail("clock", "after the error the world shows step %s, the engine stopped at step %s" % (W.T, W._cpp_world.timestep))
        return W, err

    def silent(self, W, case, ctx):
        """No error was reported: no bad vehicle may have come to the point where its route is impossible."""
        ends = {l.name: l.length for l in W.LINKS}
        for i, b in enumerate(case["bad"]):
            v = W.VEHICLES["bad%d" % i]
            st = str(v.state)
            links = [finger.nm(l) for t, l in v.log_t_link if l not in ("home", "end", None) and finger.nm(l) not in ("home", "end")]
            if b.get("route"):
                if links != b["route"][:len(links)] or len(links) > b["good"]:
                    fail("silent", "vehicle bad%d with route %s (possible: the first %d) drove %s and no error was reported" % (i, b["route"], b["good"], links))
                at_end = len(links) == b["good"]
                if st in ("end", "abort"):
                    fail("silent", "vehicle bad%d with the impossible route %s is in state %s and no error was reported" % (i, b["route"], st))
                if at_end and st == "run" and float(v.x) >= ends[v.link.name]:
                    fail("silent", "vehicle bad%d stands at the end of its last possible link %s and no error was reported" % (i, v.link.name))
                if b["good"] == 0 and st == "wait":
                    # some vehicle must be ahead of it in the queue
                    if not self.blocked(W, v):
                        fail("silent", "vehicle bad%d is first in the queue of its origin, its route %s does not start there, and no error was reported" % (i, b["route"]))
            elif b.get("avoid"):
                for l in links:
                    if l in b["avoid"]:
                        fail("silent", "vehicle bad%d drove the avoided link %s" % (i, l))
                if st == "run" and float(v.x) >= ends[v.link.name] and finger.nm(v.link.end_node) == b["at"] and b["at"] != b["d"]:
                    fail("silent", "vehicle bad%d stands at node %s, all of whose exits it avoids, and no error was reported" % (i, b["at"]))
            ctx.probe("no_error_despite_bad")

    @staticmethod
    def blocked(W, v):
        o = v.orig.name
        return any(w is not v and str(w.state) == "wait" and w.orig.name == o and (float(w.departure_time), w.id) < (float(v.departure_time), v.id) for w in W.VEHICLES.values()) \
            or W.T * W.DELTAT <= (float(v.departure_time) + 2) * W.DELTAT

    def run(self, case, ctx):
        st = self.st
        scn = case["scn"]
        byst = None
        if case["bystander"]:
            st.start(dict(mode="seq", max=1))
            W, byst = self.one(ctx.ux, case, 1)
        st.start(dict(mode="seq", max=1))
        W, err = self.attempt(ctx.ux, case, 1)
        self.count(ctx, W, scn, "cpp")
        if not case["bad"]:
            ctx.probe("clean")
            if err:
                fail("spurious", "a scenario without impossible routes failed: %s" % err)
        if len(case["bad"]) > 1:
            ctx.probe("several_bad")
            if err and case["bad"][0]["t"] == case["bad"][1]["t"]:
                ctx.probe("same_step_several")
        if err:
            # the compiled engine calls vehicles by their number
            nos = {("Vehicle %s:" % x): i for i in range(len(case["bad"])) for x in ("bad%d" % i, W.VEHICLES["bad%d" % i].id)}
            who = [i for k, i in nos.items() if k in err[1]]
            if "Vehicle " in err[1] and not who:
                fail("wrong-error", "the error does not name a vehicle with an impossible route: %s" % err)
            ctx.probe("error_exhausted" if err[0] == "IndexError" else "error_avoid" if "avoid" in err[1] else
                      "error_at_origin" if who and case["bad"][who[0]].get("good") == 0 else "error_on_the_way")
        else:
            self.silent(W, case, ctx)
        ctx.feed(json.dumps([err, W.T]))
        for threads, sched in case["runs"]:
            st.start(sched)
            ctx.trace[:] = ["THREADS %s" % threads]
            what = "%d threads, schedule %s" % (threads, {k: v for k, v in sched.items() if k != "list"} if "list" not in sched else "of %d decisions" % len(sched["list"]))
            try:
                V, e2 = self.attempt(ctx.ux, case, threads)
                if [e2, V.T] != [err, W.T]:
                    fail("interleaving", "with 1 thread: %s at step %s; with %s: %s at step %s" % (err or "no error", W.T, what, e2 or "no error", V.T))
                if not e2:
                    self.silent(V, case, ctx)
                if e2 and case["more"]:
                    # the caller may try to go on: it may fail again, but not crash or hang
                    try:
                        simthr.fresh(lambda: V.exec_simulation(duration_t2=3 * V.DELTAT))
                    except (IndexError, ValueError, RuntimeError):
                        pass
                    ctx.probe("continued_after_error")
            finally:
                self.noted(ctx, sched)
            self.took(ctx, threads, sched, V)
            r = st.races()
            if r:
                fail("race", "%s: unordered conflicting accesses: %s" % (what, st.describe(r[0])))
            if byst is not None:
                st.start(sched)
                X, got = self.one(ctx.ux, case, threads)
                ctx.probe("bystander_world")
                same(byst, got, "bystander", "another world before / after the error")

    def shrink(self, case):
        for i in range(len(case["bad"])):
            yield dict(case, bad=case["bad"][:i] + case["bad"][i + 1:])
        if case["bystander"]:
            yield dict(case, bystander=False)
        if case["more"]:
            yield dict(case, more=False)
        for x in C10.shrink(self, case):
            # links of the impossible routes stay
            keep = {n for b in case["bad"] for n in b.get("route", []) + b.get("avoid", [])} | set()
            if keep <= {l["name"] for l in x["scn"]["links"]}:
                yield x


PROP = C11()
