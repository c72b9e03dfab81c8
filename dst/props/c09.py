"""C09: a run restored from a copy or a saved file continues exactly as the original."""
import errno, json, os, random, shutil, subprocess, sys, tempfile
from .. import env, finger, scen, zygote
from ..prop import Violation
from ._lock import fail
from ._twin import TwinProp, build, drive, same, tsize, quiet, ENDTABLES

SELF = "dst.props.c09"
TABS = ENDTABLES + ("link_cumulative_to_pandas",)


def load(path):
    """The documented way of loading: unpickling the file."""
    import dill
    with open(path, "rb") as f:
        return dill.load(f)


def mutate(W, z):
    """Changes many things of a world that must not be seen by any other."""
    r = random.Random(z)
    for _ in range(r.randint(1, 4)):
        L, N = r.choice(W.LINKS), r.choice(W.NODES)
        k = r.randrange(9)
        if k == 0:
            L.capacity_out = r.choice([0, 0.05])
        elif k == 1:
            L.capacity_in = r.choice([0, 0.05])
        elif k == 2:
            L.change_free_flow_speed(max(1.0, L.u * 0.4))
        elif k == 3 and len(N.signal) > 1:
            N.override_signal([s * 3 for s in N.signal], reset=True)
        elif k == 4:
            W.rng.random()
        elif k == 5:
            W.user_attribute = {"mutated": 1}
        elif k == 6:
            L.signal_group.append(0)
            N.signal[0] += 3
        elif k == 7 and W.VEHICLES:
            v = r.choice(list(W.VEHICLES.values()))
            v.links_avoid = []
            v.attribute = "mutated"
        else:
            L.merge_priority = 0.1
    if W.T < W.TSIZE if W.finalized else True:
        W.exec_simulation(duration_t2=r.choice([1, 3, 10 ** 4]) * W.DELTAT)


def user_fn(kind):
    if kind == "count":
        hist = []

        def f(W):
            hist.append((W.T, len(W.VEHICLES_RUNNING)))
            W.user_attribute = dict(hist=hist[-5:], n=len(hist))
        return f

    def g(W, box=[0]):
        box[0] += 1
        if box[0] % 6 == 0:
            L = W.LINKS[box[0] % len(W.LINKS)]
            L.capacity_out = L.capacity * (0.5 if (box[0] // 6) % 2 else 2)
            W.user_attribute = dict(n=box[0])
    return g


class OneFault:
    """Fails the open or the nth write of a file, after a seeded part of the data has reached it."""

    def __init__(self, at, part, code):
        self.at, self.part, self.code, self.n, self.fired = at, part, code, 0, 0

    def hit(self):
        self.n += 1
        if self.n - 1 == self.at:
            self.fired += 1
            return True

    def __call__(self, real, file, mode, *a, **k):
        if "w" not in mode and "a" not in mode:
            return real(file, mode, *a, **k)
        if self.hit():
            raise OSError(self.code, os.strerror(self.code), file)
        f, outer = real(file, mode, *a, **k), self

        class F:
            def write(s, b):
                if outer.hit():
                    f.write(b[:int(len(b) * outer.part)])
                    raise OSError(outer.code, os.strerror(outer.code))
                return f.write(b)

            def __enter__(s):
                return s

            def __exit__(s, *e):
                s.close()

            def close(s):
                f.close()
                if outer.hit() and e_on_close:
                    raise OSError(outer.code, os.strerror(outer.code))

            def __getattr__(s, k):
                return getattr(f, k)
        e_on_close = True
        return F()


def record(W):
    d = finger.world(W, tables=TABS)
    d["user_attribute"] = W.user_attribute
    return d


def partial(W):
    if not W.finalized:
        return dict(links=[l.name for l in W.LINKS], vehicles=[[finger.nm(v.orig), finger.nm(v.dest), v.departure_time] for v in W.VEHICLES.values()])
    d = finger.world(W)
    d["user_attribute"] = W.user_attribute
    return d


def go(W, case, i, d, out):
    """Runs the program of the case from action i until the process "crashes" or the simulation ends."""
    scn = case["scn"]
    acts = case["acts"]
    n = tsize(scn)

    def probe(k, m=1):
        out["probes"][k] = out["probes"].get(k, 0) + m
    while i < len(acts):
        at, kind, z, q = acts[i]
        i += 1
        drive(W, scn, upto=at)
        if at >= n:
            probe("at_end")
        if not W.finalized:
            probe("before_start")
        if q and W.finalized:
            with quiet():
                W.analyzer.print_simple_stats()
                W.analyzer.link_to_pandas()
            probe("reports_read_before")
        before = partial(W)
        where = "%s at step %d of %d" % (kind, at, n)
        if kind in ("copy", "fork"):
            W2 = W.copy()
            same(before, partial(W), "copy-disturbs", "the world before / after it was copied, %s" % where)
            same(before, partial(W2), "copy-differs", "the world / its copy, %s" % where)
            a, b = (W2, W) if kind == "copy" else (W, W2)     # a goes on, b runs away
            mutate(b, z)
            same(before, partial(a), "not-independent", "a world before / after %s was changed, %s" % ("the original" if kind == "copy" else "its copy", where))
            if z % 3 == 0:
                out["keep"].append((b, partial(b), where))
            W = a
            probe(kind)
        elif kind == "fail":
            p = os.path.join(d, "f%d" % i)
            h = OneFault(z % 3, (z % 7) / 7.0, random.Random(z).choice([errno.ENOSPC, errno.EIO, errno.EACCES]))
            env.FS_HOOK["open"] = h
            try:
                W.save(p)
            except OSError:
                probe("save_failure_reported")
            else:
                env.FS_HOOK["open"] = None
                if h.fired:
                    fail("silent-save", "saving reported success although %s failed, %s" % (["opening the file", "writing", "closing"][z % 3], where))
            finally:
                env.FS_HOOK["open"] = None
            out["faults"]["save-" + ["open", "write", "close"][z % 3]] = out["faults"].get("save-" + ["open", "write", "close"][z % 3], 0) + h.fired
            same(before, partial(W), "save-disturbs", "the world before / after a failed save, %s" % where)
        else:
            p = os.path.join(d, "s%d" % i)
            W.save(p)
            same(before, partial(W), "save-disturbs", "the world before / after it was saved, %s" % where)
            if kind == "torn":
                size = os.path.getsize(p + ".pkl")
                with open(p + ".pkl", "rb") as f:
                    b = f.read()
                cut = z % size
                with open(p + "t.pkl", "wb") as f:
                    f.write(b[:cut])
                try:
                    load(p + "t.pkl")
                except Exception:
                    probe("torn_rejected")
                else:
                    fail("torn-accepted", "a file cut at byte %d of %d was loaded, %s" % (cut, size, where))
                out["faults"]["torn-file"] = out["faults"].get("torn-file", 0) + 1
                W = load(p + ".pkl")
            elif kind == "load":
                W0, W = W, load(p + ".pkl")
                same(before, partial(W), "load-differs", "the world / the loaded one, %s" % where)
                mutate(W0, z)
                same(before, partial(W), "not-independent", "a loaded world before / after the original was changed, %s" % where)
                probe("loaded_same_process")
            else:
                # the process goes on for a while, then dies; what it did after saving is lost
                drive(W, scn, upto=min(n, at + z % 9))
                if z % 4 == 0:
                    mutate(W, z)
                out["faults"]["crash"] = out["faults"].get("crash", 0) + 1
                if z % 9:
                    probe("work_lost_in_crash")
                return dict(crashed=True, path=p + ".pkl", next=i, before=before)
    drive(W, scn)
    for b, rec, where in out["keep"]:
        same(rec, partial(b), "not-independent", "an abandoned world before / after the other one went on, %s" % where)
    return dict(crashed=False, record=record(W))


def resume(ux, path, case, i, d, before):
    out = dict(probes={}, faults={}, keep=[])
    W = load(path)
    same(before, partial(W), "load-differs", "the world when it was saved / after loading it in a new process")
    r = go(W, case, i, d, out)
    out.pop("keep")
    r["out"] = out
    return r


class C09(TwinProp):
    id = "C09"
    cpp_share = 0.05
    quick_n, thorough_n = 700, 40000
    rule = ("one evaluation is one seeded scenario run without interruption and again through a seeded program of copies, saves, crashes (a new process that only has the saved file), "
            "failing saves and torn files at seeded steps, each abandoned world being changed and run on; the final records must agree exactly")
    want_probes = ["copy", "fork", "crash", "restored", "restored_fresh_interpreter", "at_end", "before_start", "reports_read_before", "torn_rejected", "save_failure_reported", "user_function", "long_queue"]
    assumptions = TwinProp.assumptions + ["a crash loses everything but the files whose writing had been reported as successful", "files are loaded with dill, as documented"]

    def prepare(self, ux):
        zygote.start(ux)

    def make_opts(self, rng, engine):
        o = TwinProp.make_opts(self, rng, engine)
        if rng.random() < 0.1:
            o["platoons"] = 400
        return o

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            z = rng.random()
            at = 0 if z < 0.05 else n if z < 0.1 else rng.randint(1, n)
            acts.append([at, rng.choice(["copy", "copy", "fork", "fork", "crash", "crash", "crash", "load", "torn", "fail"]), rng.randrange(10 ** 6), rng.random() < 0.2])
        acts.sort(key=lambda a: a[0])
        case["acts"] = acts
        case["uf"] = rng.choice([None, None, "count", "cap"])
        case["fresh"] = rng.random() < 0.015

    def shrink(self, case):
        for i in range(len(case["acts"])):
            yield dict(case, acts=case["acts"][:i] + case["acts"][i + 1:])
        yield dict(case, uf=None)
        yield dict(case, acts=[[a, k, z, False] for a, k, z, q in case["acts"]])
        for x in TwinProp.shrink(self, case):
            n = tsize(x["scn"])
            yield dict(x, acts=[[min(a, n), k, z, q] for a, k, z, q in x["acts"]])

    def world(self, ux, case):
        W = build(ux, case["scn"], case["engine"], case["rng"])
        if case["uf"]:
            W.user_function = user_fn(case["uf"])
        return W

    def unsupported(self, ctx, case):
        """The compiled engine refuses; the world must go on unharmed."""
        scn = case["scn"]
        A = build(ctx.ux, scn, "cpp")
        drive(A, scn)
        B = build(ctx.ux, scn, "cpp")
        for at, kind, z, q in case["acts"]:
            drive(B, scn, upto=at)
            try:
                B.copy() if z % 2 else B.save("never")
            except NotImplementedError:
                ctx.probe("cpp_refused")
            else:
                fail("accepted", "copying or saving a compiled world was accepted")
        drive(B, scn)
        a = finger.world(A, "cpp", tables=ENDTABLES)
        same(a, finger.world(B, "cpp", tables=ENDTABLES), "refusal-disturbs", "a compiled world with / without a refused copy")
        self.count(ctx, A, scn, "cpp", 2)
        self.record(ctx, a)

    def run(self, case, ctx):
        if case["engine"] == "cpp":
            return self.unsupported(ctx, case)
        scn = case["scn"]
        A = self.world(ctx.ux, case)
        drive(A, scn)
        a = record(A)
        if case["uf"]:
            ctx.probe("user_function")
        if max([0] + [len(l.vehicles) for l in A.LINKS] + [len(q.generation_queue) for q in A.NODES]) > 60:
            ctx.probe("long_queue")
        d = tempfile.mkdtemp(prefix="dst-c09-")
        try:
            out = dict(probes={}, faults={}, keep=[])
            r = go(self.world(ctx.ux, case), case, 0, d, out)
            self.merge(ctx, out)
            while r["crashed"]:
                ok, x = zygote.call(SELF, "resume", r["path"], case, r["next"], d, r["before"])
                if not ok:
                    raise Violation(x[0], x[1] + " (after a crash; %s)" % (x[2].strip().splitlines()[-1] if x[0].startswith("exception") else "restored process"))
                ctx.probe("restored")
                if case["fresh"]:
                    self.fresh(ctx, case, r, d, a)
                r = x
                self.merge(ctx, r["out"])
            same(a, r["record"], "diverges", "the uninterrupted run / the run through %s" % [x[:2] for x in case["acts"]])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.count(ctx, A, scn, "py", 2)
        self.record(ctx, a)

    @staticmethod
    def merge(ctx, out):
        for k, v in out["probes"].items():
            ctx.probe(k, v)
        for k, v in out["faults"].items():
            ctx.fault(k, v)

    def fresh(self, ctx, case, r, d, a):
        """The same restart in a new interpreter with another hash seed."""
        job = os.path.join(d, "job.json")
        with open(job, "w") as f:
            json.dump(dict(case=case, path=r["path"], at=case["acts"][r["next"] - 1][0]), f)
        p = subprocess.run([sys.executable, "-m", "dst.props.c09", job], cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                           env=dict(os.environ, PYTHONHASHSEED="77"), capture_output=True, text=True, timeout=100)
        if p.returncode:
            fail("fresh-restart", "a new interpreter could not continue the saved world: %s" % p.stderr.strip()[-300:])
        ctx.probe("restored_fresh_interpreter")
        if p.stdout.strip().splitlines()[-1] != finger.digest(a):
            fail("fresh-diverges", "the saved world continued in a new interpreter with another hash seed ends differently")


PROP = C09()

if __name__ == "__main__":
    with open(sys.argv[1]) as f_:
        j = json.load(f_)
    env.setup(None)
    W_ = load(j["path"])
    drive(W_, j["case"]["scn"])
    print(finger.digest(record(W_)))
