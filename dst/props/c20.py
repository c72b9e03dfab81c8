"""C20: failing output never breaks or changes a simulation."""
import errno, hashlib, io, os, random, shutil, sys, tempfile, warnings
import numpy as np
from .. import finger, scen
from ..fsim import FaultFS
from ._lock import fail, cpp_case
from ._twin import TwinProp, build, drive, same, tsize, quiet, ENDTABLES

CODES = [errno.ENOSPC, errno.EACCES, errno.EIO, errno.EMFILE, errno.EROFS, errno.EDQUOT, -1]
TABLES = dict(_basic="basic_to_pandas", _od="od_to_pandas", _mfd="mfd_to_pandas", _link="link_to_pandas", _link_traffic_state="link_traffic_state_to_pandas", _vehicles="vehicles_to_pandas")


class BadRows:
    """Standard output that fails for chosen writes."""

    def __init__(self, match):
        self.match, self.fired, self.buf = match, 0, io.StringIO()

    def write(self, s):
        if self.match in s:
            self.fired += 1
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return self.buf.write(s)

    def flush(self):
        pass


class C20(TwinProp):
    id = "C20"
    quick_n, thorough_n = 240, 8000
    case_limit = 240
    cpp_share = 0.3
    rule = ("one evaluation is one seeded scenario run without output, with seeded output calls, and with the same calls under seeded file system faults, failed calls repeated afterwards; "
            "final records, warnings and written files are compared; distinct_nontrivial counts distinct combinations of final record and written files")
    want_probes = ["fault_fired", "retry_equal", "dir_removed", "dir_blocked", "own_name", "csv_checked", "progress_rows_failed", "mid_run", "after_end", "kind_open", "kind_write", "kind_mkdir", "kind_close", "kind_remove", "engine_cpp", "engine_py"]
    real = ["uxsim/analyzer.py", "uxsim/utils.py", "uxsim/uxsim.py", "uxsim/uxsim_cpp_wrapper.py", "uxsim/trafficpp/* (compiled from the current tree)", "matplotlib", "Pillow", "pandas"]
    stub = ["file system below the world's folder (real scratch files behind a layer that fails operations)", "standard output", "wall clock (simulated)", "the font missing from the tree (another shipped font)"]
    assumptions = ["up to 4 output calls per run", "faults hit opens for writing, writes, flushes, closes, directory creation and removal of files below the working directory", "reading of fonts does not fail"]

    def world_over(self, rng, engine):
        dn = rng.choice([2, 5, 5, 10])
        return dict(deltan=dn, reaction_time=1, tmax=dn * rng.randint(25, 50), eular_dt=dn * rng.choice([4, 6, 10]), eular_dx=rng.choice([10, 10, 100]), save_mode=1)

    def make_opts(self, rng, engine):
        return dict(platoons=rng.choice([10, 30]), n_ops=[0, 3], p_area=0, short=0)

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        w = scn["world"]
        w["name"] = rng.choice(["", "_w1", "x y", "Ü"])
        links = [l["name"] for l in scn["links"]]
        acts = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            k = rng.choice(["show_network", "network", "network", "network_average", "network_pillow", "network_anim", "network_fancy", "tsd_traj", "tsd_density", "tsd_links", "curves", "mfd", "veh", "vehs", "csv", "csv", "csv_own", "stats"])
            at = rng.choice([n, n, rng.randint(1, n)])
            if k == "show_network" and rng.random() < 0.4:
                at = 0
            if k in ("network_average",) and rng.random() < 0.8:
                at = n
            kw = {}
            if k in ("network", "network_pillow"):
                kw = dict(t=rng.randrange(0, max(1, int(w["tmax"]))), detailed=rng.choice([0, 1]), state_variables=rng.choice(["density_speed", "flow_delay"]), legend=rng.random() < 0.5)
            elif k == "network_anim":
                kw = dict(detailed=rng.choice([0, 0, 1]), timestep_skip=rng.choice([12, 20]))
            elif k == "network_fancy":
                kw = dict(interval=3, sample_ratio=0.5, figsize=2, speed_coef=16)
            elif k in ("tsd_traj", "tsd_density", "curves"):
                kw = dict(links=rng.choice([rng.choice(links), rng.sample(links, min(2, len(links)))]))
                if k == "curves":
                    kw["links"] = rng.sample(links, min(2, len(links)))
            elif k == "tsd_links":
                kw = dict(linkslist=[rng.sample(links, min(2, len(links)))])
            elif k in ("veh", "vehs"):
                kw = dict(i=rng.randrange(1000), j=rng.randrange(1000))
            f = None
            if rng.random() < 0.75:
                f = dict(frac=rng.random(), code=rng.choice(CODES), part=rng.choice([0, 0.5, 1]), stay=rng.random() < 0.4)
                if rng.random() < 0.2:
                    f = rng.choice([dict(env="rmdir"), dict(env="blocked")])
                elif rng.random() < 0.25:
                    f["frac"] = rng.choice([0.0, 0.999])
            acts.append([at, k, kw, f])
        acts.sort(key=lambda a: a[0])
        case["acts"] = acts
        case["progress"] = rng.random() < 0.25
        case["rng"] = None

    def call(self, W, k, kw):
        kw = dict(kw)
        if k == "show_network":
            return W.show_network(**kw)
        a = W.analyzer
        if k in ("network", "network_average", "network_pillow", "network_anim", "network_fancy"):
            return getattr(a, k)(**kw)
        if k in ("tsd_traj", "tsd_density", "curves"):
            m = dict(tsd_traj="time_space_diagram_traj", tsd_density="time_space_diagram_density", curves="cumulative_curves")[k]
            x = kw["links"]
            if k == "curves":
                kw["links"] = [W.get_link(l) for l in x]
            return getattr(a, m)(**kw)
        if k == "tsd_links":
            return a.time_space_diagram_traj_links(**kw)
        if k == "mfd":
            return a.macroscopic_fundamental_diagram()
        vs = list(W.VEHICLES)
        if k == "veh":
            return a.plot_vehicle_log(vs[kw["i"] % len(vs)]) if vs else None
        if k == "vehs":
            return a.plot_vehicles_log([vs[kw["i"] % len(vs)], vs[kw["j"] % len(vs)]]) if vs else None
        if k == "csv":
            return a.output_data()
        if k == "csv_own":
            os.makedirs("own", exist_ok=True)
            return a.output_data("own/res")
        if k == "stats":
            return a.print_simple_stats(force_print=True)
        raise ValueError(k)

    def act(self, W, k, kw, fs, plan, out=None):
        """One output call; returns (warnings, {file: digest}, error or None)."""
        random.seed(1)
        np.random.seed(1)
        err = None
        so = sys.stdout
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            if k == "csv_own":
                os.makedirs("own", exist_ok=True)
            with fs.begin(plan):
                sys.stdout = out or io.StringIO()
                try:
                    self.call(W, k, kw)
                except Exception as e:
                    err = e
                finally:
                    sys.stdout = so
        ms = sorted(str(w.message).split(":", 2)[-1] for w in ws if issubclass(w.category, UserWarning) and "Glyph" not in str(w.message))
        # what was written, with tmp files that are gone left out
        files = {}
        for p in sorted(set(fs.wrote)):
            if os.path.isfile(p):
                files[os.path.relpath(p, fs.root)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        return ms, files, err

    def inside(self, W, fs, k, what):
        out = os.path.join(fs.root, "out" + W.name)
        for op, p in fs.touched:
            ok = p == out or p.startswith(out + os.sep)
            if k == "csv_own" and p.startswith(os.path.join(fs.root, "own")):
                ok = True
            if not ok:
                fail("outside", "%s: %s of %s, which is not below the world's output directory" % (what, op, os.path.relpath(p, fs.root)))

    def csv(self, W, k, ctx, what):
        base = "out%s/data" % W.name if k == "csv" else "own/res"
        for suf, fn in TABLES.items():
            p = base + suf + ".csv"
            with open(p, newline="") as f:
                got = f.read()
            want = getattr(W.analyzer, fn)().to_csv(index=False)
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                fail("csv", "%s: %s differs from the table %s at character %d: %r / %r" % (what, p, fn, i, got[max(0, i - 30):i + 30], want[max(0, i - 30):i + 30]))
            ctx.probe("csv_checked")

    def one(self, case, ctx, mode, ref):
        """mode 0: no output; 1: output without faults; 2: output with faults."""
        scn, eng = case["scn"], case["engine"]
        n = tsize(scn)
        d = tempfile.mkdtemp(prefix="dst20_")
        cwd = os.getcwd()
        os.chdir(d)
        fs = FaultFS(d)
        res = []
        so = sys.stdout
        try:
            prog = case.get("progress")
            W = build(ctx.ux, scn, eng, None, **(dict(print_mode=1, show_progress=1, show_progress_deltat=scn["world"]["deltan"] * 4) if prog else {}))
            acts = case["acts"]
            if prog:
                sys.stdout = BadRows("vehs|" if mode == 2 else "\0never")
                warnings.simplefilter("ignore")
            for i, (at, k, kw, f) in enumerate(acts):
                if at and (not W.finalized or W.T < at):
                    try:
                        drive(W, scn, upto=at)
                    except OSError as e:
                        fail("simulation-stopped", "the simulation stopped at step %s because a line of progress could not be printed: %r" % (W.T, e))
                if mode == 0:
                    continue
                what = "%s(%s) at step %d of %d%s" % (k, ", ".join("%s=%r" % x for x in kw.items()), at, n, " (C++)" if eng == "cpp" else "")
                if mode == 1:
                    r = self.act(W, k, kw, fs, None)
                    res.append(r + (fs.n,))
                    if r[2] is not None:
                        fail("raised", "%s raised %r" % (what, r[2]))
                    self.inside(W, fs, k, what)
                    if k in ("csv", "csv_own") and not r[0]:
                        self.csv(W, k, ctx, what)
                    ctx.probe("mid_run" if 0 < at < n else "after_end" if at == n else "before_start")
                    ctx.probe("act_" + k)
                    if r[0]:
                        ctx.probe("unable_%s: %s" % (k, r[0][0].split("\n")[0][:80]))
                    if k == "csv_own":
                        ctx.probe("own_name")
                    continue
                want = ref[i]
                plan = None
                blocked = None
                if f and f.get("env") == "rmdir":
                    shutil.rmtree("out" + W.name, ignore_errors=True)
                    ctx.probe("dir_removed")
                    ctx.fault("directory-removed")
                elif f and f.get("env") == "blocked" and want[3]:
                    blocked = "out" + W.name if k != "csv_own" else "own"
                    if os.path.isdir(blocked):
                        os.rename(blocked, blocked + ".aside")
                    with open(blocked, "w") as q:
                        q.write("a file")
                    ctx.fault("directory-replaced-by-file")
                elif f and "frac" in f and want[3]:
                    plan = dict(at=min(want[3] - 1, int(f["frac"] * want[3])), code=f["code"], part=f["part"], stay=f["stay"])
                if blocked and k == "csv_own":
                    os.unlink(blocked)
                    os.rename(blocked + ".aside", blocked) if os.path.isdir(blocked + ".aside") else None
                    blocked = None
                r = self.act(W, k, kw, fs, plan)
                if r[2] is not None:
                    fail("raised", "%s raised %r under the fault %s" % (what, r[2], plan or f))
                hit = fs.fired or blocked
                if not blocked:
                    self.inside(W, fs, k, what + " under a fault")
                for kk, c in fs.kinds.items():
                    ctx.probe("kind_" + kk)
                    ctx.fault("%s:%s" % (kk, "memory" if plan["code"] < 0 else errno.errorcode[plan["code"]]), c)
                if hit:
                    ctx.probe("fault_fired")
                    if blocked:
                        ctx.probe("dir_blocked")
                    if not (len(r[0]) > len(want[0]) or [m for m in r[0] if m not in want[0]]):
                        fail("silent", "%s: the failure %s was not reported (warnings %s)" % (what, plan or f, r[0]))
                if blocked:
                    os.unlink(blocked)
                    if os.path.isdir(blocked + ".aside"):
                        os.rename(blocked + ".aside", blocked)
                if hit:
                    # once the fault is over the same call succeeds
                    r = self.act(W, k, kw, fs, None)
                    if r[2] is not None:
                        fail("raised", "%s raised %r when repeated after the fault %s" % (what, r[2], plan or f))
                    ctx.probe("retry_equal")
                    what += " repeated after the fault %s" % (plan or f)
                if r[0] != want[0]:
                    fail("warnings", "%s warned %s, without faults %s" % (what, r[0], want[0]))
                if r[1] != want[1] and not want[0]:
                    bad = [p for p in sorted(set(r[1]) | set(want[1])) if r[1].get(p) != want[1].get(p)]
                    fail("files", "%s wrote %s differently from the run without faults (%s / %s)" % (what, bad[:4], [r[1].get(p) for p in bad[:2]], [want[1].get(p) for p in bad[:2]]))
                if k in ("csv", "csv_own") and not r[0]:
                    self.csv(W, k, ctx, what)
            try:
                drive(W, scn)
            except OSError as e:
                fail("simulation-stopped", "the simulation stopped at step %s because a line of progress could not be printed: %r" % (W.T, e))
            if prog:
                if mode == 2 and sys.stdout.fired:
                    ctx.probe("progress_rows_failed")
                    ctx.fault("stdout:EPIPE", sys.stdout.fired)
                sys.stdout = so
            rec = finger.world(W, eng, tables=ENDTABLES)
            self.count(ctx, W, scn, eng)
            return rec, res
        finally:
            sys.stdout = so
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
            import matplotlib.pyplot as plt
            plt.close("all")

    def run(self, case, ctx):
        r0, _ = self.one(case, ctx, 0, None)
        r1, ref = self.one(case, ctx, 1, None)
        same(r0, r1, "changed", "a run with output calls differs from the run without")
        r2, _ = self.one(case, ctx, 2, ref)
        same(r0, r2, "changed-by-failure", "a run with failing output calls differs from the run without output")
        self.record(ctx, [r0, [x[:2] for x in ref]])

    def shrink(self, case):
        for i in range(len(case["acts"])):
            yield dict(case, acts=case["acts"][:i] + case["acts"][i + 1:])
        for i, a in enumerate(case["acts"]):
            if a[3]:
                yield dict(case, acts=case["acts"][:i] + [[a[0], a[1], a[2], None]] + case["acts"][i + 1:])
        if case.get("progress"):
            yield dict(case, progress=False)
        yield from TwinProp.shrink(self, case)


PROP = C20()
