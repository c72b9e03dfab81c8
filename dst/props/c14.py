"""C14: a scenario survives saving and loading; bad files are rejected; saving never alters the world."""
import errno, functools, os, random, shutil, tempfile
from .. import env, finger, scen
from ._lock import fail
from ._twin import TwinProp, build, drive, same, tsize, quiet
from .c09 import OneFault

NODE_FIELDS = ("id", "name", "x", "y", "signal", "signal_offset", "signal_phase", "signal_t", "flow_capacity", "number_of_lanes", "attribute", "user_attribute")
LINK_FIELDS = ("id", "name", "length", "u", "kappa", "w", "tau", "capacity", "capacity_in", "capacity_out", "number_of_lanes", "merge_priority", "signal_group", "delta", "delta_per_lane",
               "edie_dx", "attribute", "user_attribute", "q_star", "k_star")


def toll(a, b, t):
    return a * ((t // b) % 2)


def val(x):
    return finger._f(x) if not isinstance(x, (list, tuple)) else [finger._f(v) for v in x]


def network(W):
    return dict(nodes=[{k: val(getattr(n, k)) for k in NODE_FIELDS} for n in W.NODES],
                links=[dict({k: val(getattr(l, k)) for k in LINK_FIELDS}, a=l.start_node.name, b=l.end_node.name, toll=[val(l.get_toll(t)) for t in (0, 37, 500, 1301)]) for l in W.LINKS],
                names=[sorted(W.NODES_NAME_DICT), sorted(W.LINKS_NAME_DICT)])


def demand(W):
    return [[nm, v.id, v.orig.name, v.dest.name, finger._f(v.departure_time), val(v.attribute)] for nm, v in W.VEHICLES.items()]


def full(W):
    d = dict(network=network(W), demand=demand(W), rng=str(W.rng.bit_generator.state))
    if W.finalized:
        d["world"] = finger.world(W, "py")
    return d


def empty(W):
    return not (W.NODES or W.LINKS or W.VEHICLES or W.NODES_NAME_DICT or W.LINKS_NAME_DICT)


class C14(TwinProp):
    id = "C14"
    quick_n, thorough_n = 900, 60000
    cpp_share = 0
    real = ["uxsim/scenario_reader_writer.py", "uxsim/uxsim.py", "pickle"]
    stub = ["file objects (real files in a scratch folder behind a layer that fails opens, writes and closes and cuts files)", "wall clock (simulated)"]
    rule = ("one evaluation is one seeded scenario built with mixed kinds of demand calls, saved before, during and after its run under seeded disk faults, loaded into empty worlds in one, two or partial steps and run again; "
            "networks, demands and complete final records must be equal; files cut at seeded bytes must be rejected with nothing added")
    want_probes = ["demand_kinds", "node_objects", "save_failure_reported", "torn_rejected", "missing_rejected", "loaded_split", "saved_mid_run", "saved_after_run", "rerun_equal", "csv", "priced"]
    assumptions = ["scenarios of 2-13 nodes, up to ~90 platoons and 40-110 steps", "demand given through the demand functions; vehicles added one by one with addVehicle are not part of a saved scenario"]

    def world_over(self, rng, engine):
        return dict(hard=True) if rng.random() < 0.3 else {}

    def make_opts(self, rng, engine):
        return dict(n_ops=[0], short=0.1, platoons=rng.choice([15, 40, 80]))

    def tweak(self, rng, scn, engine, case):
        scn["vehicles"] = []
        names = [n["name"] for n in scn["nodes"]]
        # mix kinds of demand calls in an arbitrary order
        extra = []
        w = scn["world"]
        dt = w["deltan"] * w["reaction_time"]
        base = [d for d in scn["demands"] if d["kind"] == "od"]
        for d in base[:3]:
            if rng.random() < 0.6:
                q = dict(d)
                q.pop("o"), q.pop("d")
                q.pop("flow", None)
                q["kind"] = rng.choice(["n2n", "n2n2"])
                q["os"], q["ds"] = [d["o"]], [d["d"]]
                q["volume"] = w["deltan"] * rng.randint(2, 8)
                extra.append(q)
        scn["demands"] += extra
        rng.shuffle(scn["demands"])
        for n in scn["nodes"]:
            if rng.random() < 0.2:
                n.setdefault("kw", {})[rng.choice(["attribute", "user_attribute"])] = rng.choice(["depot", 3, ["a", 1]])
        for l in scn["links"]:
            l.pop("toll", None)
            if rng.random() < 0.2:
                l.setdefault("kw", {})[rng.choice(["attribute", "user_attribute"])] = rng.choice(["road", 7, [1, 2]])
            if rng.random() < 0.15:
                l.setdefault("kw", {})["eular_dx"] = l["len"] / rng.choice([2, 3, 7])
            if rng.random() < 0.15:
                l["price"] = [rng.choice([30, 400]), rng.choice([60, 500])]
        case["objs"] = rng.random() < 0.3
        case["plan"] = [[rng.choice(["save", "save", "fail", "torn"]), rng.choice([0, 0, 1]) * rng.random(), rng.randrange(10 ** 6)] for _ in range(rng.randint(1, 4))]
        case["after"] = rng.random() < 0.4
        case["how"] = rng.choice(["full", "split", "two_files", "reload"])
        case["csv"] = rng.random() < 0.25
        case["rng"] = None

    def world(self, ux, scn, objs=False, contents=True):
        s = dict(scn)
        if not contents:
            s = dict(s, nodes=[], links=[], demands=[], vehicles=[])
        else:
            s["links"] = [dict(l, kw=dict(l.get("kw", {}), **({"congestion_pricing": functools.partial(toll, *l["price"])} if l.get("price") else {}))) for l in s["links"]]
            dem = s["demands"]
            s["demands"] = []
        W = scen.build_world(ux, s, "py")
        if contents:
            for d in dem:
                d = dict(d)
                if objs:
                    for k in ("o", "d"):
                        if k in d:
                            d[k] = W.get_node(d[k])
                    for k in ("os", "ds"):
                        if k in d:
                            d[k] = [W.get_node(x) for x in d[k]]
                scen.add_demand(W, d)
        return W

    def run(self, case, ctx):
        d = tempfile.mkdtemp(prefix="dst14_")
        try:
            with quiet():
                self.go(case, ctx, d)
        finally:
            env.FS_HOOK["open"] = None
            shutil.rmtree(d, ignore_errors=True)

    def reject(self, ctx, ux, scn, path, what, probe):
        B = self.world(ux, scn, contents=False)
        try:
            B.load_scenario(path)
        except Exception:
            ctx.probe(probe)
        else:
            fail("bad-file-accepted", "%s was loaded" % what)
        if not empty(B):
            fail("partly-loaded", "%s was rejected after %d nodes, %d links and %d vehicles had been added" % (what, len(B.NODES), len(B.LINKS), len(B.VEHICLES)))

    def go(self, case, ctx, d):
        ux, scn = ctx.ux, case["scn"]
        n = tsize(scn)
        A0 = self.world(ux, scn, case["objs"])
        net0, dem0 = network(A0), demand(A0)
        drive(A0, scn, step1=True)
        rec0 = full(A0)
        A = self.world(ux, scn, case["objs"])
        if case["objs"]:
            ctx.probe("node_objects")
        if len({x["kind"] for x in scn["demands"]}) > 1:
            ctx.probe("demand_kinds")
        if any(l.get("price") for l in scn["links"]):
            ctx.probe("priced")
        plan = sorted([int(fr * n), i, k, z] for i, (k, fr, z) in enumerate(case["plan"]))
        good, nets = [], {}
        for at, i, kind, z in plan:
            if at > (A.T if A.finalized else 0):
                drive(A, scn, upto=at)
            p = os.path.join(d, "s%d.pkl" % i)
            where = "at step %d of %d" % (A.T if A.finalized else 0, n)
            before = full(A)
            if kind == "fail":
                if z % 2 and good:
                    p = good[-1]
                h = OneFault(z % 3, (z % 7) / 7.0, random.Random(z).choice([errno.ENOSPC, errno.EIO, errno.EACCES]))
                env.FS_HOOK["open"] = h
                try:
                    A.save_scenario(p)
                except OSError:
                    ctx.probe("save_failure_reported")
                else:
                    if h.fired:
                        fail("silent-save", "saving reported success although %s failed, %s" % (["opening the file", "writing", "closing"][z % 3], where))
                finally:
                    env.FS_HOOK["open"] = None
                ctx.fault("save-" + ["open", "write", "close"][z % 3], h.fired)
                if z % 3 == 1 and h.fired:
                    # what a failed write leaves behind is not a scenario
                    self.reject(ctx, ux, scn, p, "the file left by a failed save", "torn_rejected")
                if z % 3 and h.fired:
                    good = [g for g in good if g != p]
            else:
                A.save_scenario(p)
                good.append(p)
                nets[p] = network(A)
                if A.finalized:
                    ctx.probe("saved_mid_run")
                if kind == "torn":
                    b = open(p, "rb").read()
                    cut = z % len(b)
                    with open(p + "t", "wb") as f:
                        f.write(b[:cut] + (b"\0" * (len(b) - cut) if z % 5 == 0 else b""))
                    ctx.fault("torn-file")
                    self.reject(ctx, ux, scn, p + "t", "a file cut at byte %d of %d" % (cut, len(b)), "torn_rejected")
            same(before, full(A), "save-disturbs", "the world before / after it was saved (%s), %s" % (kind, where))
        drive(A, scn)
        same(rec0, full(A), "save-disturbs", "the final record without / with saves")
        if case["after"] or not good:
            p = os.path.join(d, "end.pkl")
            A.save_scenario(p)
            same(rec0, full(A), "save-disturbs", "the finished world before / after it was saved")
            good, nets[p] = [p], network(A)
            ctx.probe("saved_after_run")
        self.reject(ctx, ux, scn, os.path.join(d, "nothing.pkl"), "a missing file", "missing_rejected")
        os.mkdir(os.path.join(d, "dir"))
        self.reject(ctx, ux, scn, os.path.join(d, "dir"), "a directory", "missing_rejected")
        p = good[len(case["plan"]) % len(good)]
        B = self.world(ux, scn, contents=False)
        how = case["how"]
        if how == "two_files":
            nets[p] = network(A)
        # (capacities of nodes are set when a world with automatic node capacities starts)
        first, net0 = net0, nets[p]
        for x, y in zip(net0["nodes"], first["nodes"]):
            x["signal_t"], x["signal_phase"] = y["signal_t"], y["signal_phase"]
        for x, y in zip(net0["links"], first["links"]):
            if x != y:
                fail("network", "running the scenario changed the parameters of link %s: %s" % (x["name"], finger.diff(y, x)))
        if how == "full":
            B.load_scenario(p)
        elif how in ("split", "two_files"):
            q1, q2 = p, p
            if how == "two_files":
                q1, q2 = os.path.join(d, "net.pkl"), os.path.join(d, "dem.pkl")
                A.save_scenario(q1, demand=False)
                A.save_scenario(q2, network=False)
                X = self.world(ux, scn, contents=False)
                X.load_scenario(q1)
                if X.VEHICLES:
                    fail("partial", "a file saved without demand added %d vehicles" % len(X.VEHICLES))
            B.load_scenario(q1, demand=False)
            if B.VEHICLES:
                fail("partial", "loading only the network added %d vehicles" % len(B.VEHICLES))
            same(net0, network(B), "network", "the original network / the network loaded alone")
            B.load_scenario(q2, network=False)
            ctx.probe("loaded_split")
        else:
            # a scenario saved from a loaded world
            X = self.world(ux, scn, contents=False)
            X.load_scenario(p)
            q = os.path.join(d, "again.pkl")
            X.save_scenario(q)
            B.load_scenario(q)
        same(net0, network(B), "network", "the original / the loaded network (%s)" % how)
        same(dem0, demand(B), "demand", "the original / the loaded demand (%s)" % how)
        drive(B, scn, step1=True)
        same(rec0, full(B), "rerun", "the final record of the original / the loaded scenario (%s)" % how)
        ctx.probe("rerun_equal")
        if case["csv"]:
            self.csv(ctx, ux, scn, d)
        self.count(ctx, A, scn, "py", 3)
        self.record(ctx, rec0)

    def csv(self, ctx, ux, scn, d):
        """The CSV form holds the basic parameters of nodes and links and the plain demands."""
        import csv
        s = dict(scn, nodes=[dict(name=x["name"], x=x["x"], y=x["y"]) for x in scn["nodes"]],
                 links=[{k: l[k] for k in ("name", "a", "b", "len", "u") } | dict(kappa=l.get("kappa") or 0.15, mp=l.get("mp", 1)) for l in scn["links"]],
                 demands=[{k: v for k, v in x.items() if k != "attr"} for x in scn["demands"] if x["kind"] == "od"])
        P = [os.path.join(d, x) for x in ("n.csv", "l.csv", "d.csv")]
        with open(P[0], "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["name", "x", "y"])
            w.writerows([x["name"], x["x"], x["y"]] for x in s["nodes"])
        with open(P[1], "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["name", "start", "end", "length", "u", "kappa", "merge_priority"])
            w.writerows([l["name"], l["a"], l["b"], l["len"], l["u"], l["kappa"], l["mp"]] for l in s["links"])
        with open(P[2], "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["orig", "dest", "start_t", "end_t", "q", "volume"])
            for x in s["demands"]:
                w.writerow([x["o"], x["d"], x["t0"], x["t1"], x.get("flow", -1)] + ([x["volume"]] if "volume" in x else []))
        A = self.world(ux, s)
        B = self.world(ux, s, contents=False)
        B.load_scenario_from_csv(*P)
        same(network(A), network(B), "csv", "the network given by calls / by CSV files")
        same(demand(A), demand(B), "csv", "the demand given by calls / by CSV files")
        drive(A, s)
        drive(B, s)
        same(full(A), full(B), "csv", "the final record of the scenario given by calls / by CSV files")
        ctx.probe("csv")


PROP = C14()
