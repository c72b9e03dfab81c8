"""Seeded search: distributes simulated runs over worker processes, minimises and confirms failures,
writes replay files and the evidence file."""
import copy, importlib, json, multiprocessing as mp, os, random, re, resource, signal, subprocess, sys, time, traceback
from . import build, env, scen
from .prop import Ctx, Violation

VERIF = env.VERIF
OUT = os.path.join(VERIF, "out")
NW = int(os.environ.get("DST_WORKERS", "8"))
clock = time.perf_counter


def load(pid):
    m = importlib.import_module("dst.props." + pid.lower())
    return m.PROP


def case_of(prop, seed, idx):
    rng = random.Random("%s:%s:%s" % (prop.id, seed, idx))
    case = prop.gen(rng, idx)
    case["prop"], case["idx"], case["seed"] = prop.id, idx, seed
    return json.loads(json.dumps(case))


def _where(tb):
    """(innermost function inside the package, is the innermost frame of the harness deeper?)"""
    root = os.path.join(os.path.realpath(env.REPO), "uxsim") + os.sep
    fr = traceback.extract_tb(tb)
    last = None
    for f in fr:
        if os.path.realpath(f.filename).startswith(root):
            last = f
    return last


def execute(prop, ux, case, trace=False):
    """Runs one case; never raises. Returns the result record."""
    ctx = Ctx(ux)
    res = dict(ok=True, kind=None, msg=None)
    env.CLOCK.__init__()
    scratch = None
    try:
        prop.run(copy.deepcopy(case), ctx)
    except Exception as e:
        kind, msg = getattr(e, "kind", None), getattr(e, "msg", None)
        if kind is None:
            f = _where(e.__traceback__)
            kind = "exception:%s:%s" % (type(e).__name__, f.name if f else "oracle")
            msg = "%s: %s%s" % (type(e).__name__, str(e)[:300], "" if f is None else " (in %s, %s)" % (f.name, os.path.basename(f.filename)))
            res["tb"] = traceback.format_exc()[-2500:]
        res.update(ok=False, kind=kind, msg=msg)
        res["known"] = prop.known(case, Violation(kind, msg))
    res.update(probes=ctx.probes, faults=ctx.faults, states=list(ctx.states)[:600], steps=ctx.steps, simsec=ctx.simsec, runs=ctx.runs,
               digest=ctx.h.hexdigest()[:24], nontrivial=bool(prop.nontrivial(ctx)))
    if trace:
        res["trace"] = ctx.trace
    return res


def _worker(prop, ux, conn, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ["DST_WORKER"] = "1"
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(dn, 2)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        what, x = job
        case = case_of(prop, seed, x) if what == "idx" else x
        conn.send(execute(prop, ux, case, trace=(what == "case")))
    os._exit(0)


class Worker:
    def __init__(self, prop, ux, seed):
        self.conn, child = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                _worker(prop, ux, child, seed)
            finally:
                os._exit(70)
        child.close()
        self.job, self.t0, self.done = None, None, 0

    def send(self, what, x):
        self.job, self.t0 = x, clock()
        self.conn.send((what, x))

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.conn.close()

    def close(self):
        try:
            self.conn.send(None)
        except OSError:
            pass
        self.kill()


def died(prop, case, pid):
    from . import simthr
    f = simthr.read_fatal(pid)
    if f is None:
        return dict(ok=False, kind="crash", msg="the process executing the simulation died", digest="", trace=[])
    sched = case["runs"][-1][1] if case.get("runs") else {}
    return dict(ok=False, kind=f[0].split()[0], msg="the simulated execution ended in: " + f[0], digest="",
                trace=["SCHED " + json.dumps(dict(list=f[1], cap=sched.get("cap", 0), seed=sched.get("seed", 1), max=sched.get("max", 4)))])


def run_isolated(prop, ux, case, limit, seed):
    """One case in a process of its own; crash and hang become results."""
    w = Worker(prop, ux, seed)
    try:
        w.send("case", case)
        t0 = clock()
        while clock() - t0 < limit:
            if w.conn.poll(0.05):
                try:
                    return w.conn.recv()
                except EOFError:
                    return died(prop, case, w.pid)
        return dict(ok=False, kind="hang", msg="the simulated run did not finish within %d s" % limit, digest="", trace=[])
    finally:
        w.kill()


def minimise(prop, ux, case, res, budget, seed, log):
    """Greedy shrinking while the same kind of violation persists."""
    t0 = clock()
    best, bres = case, res
    tried = 0
    limit = 20 if res["kind"] == "hang" else prop.case_limit
    improved = True
    while improved and clock() - t0 < budget:
        improved = False
        for cand in prop.shrink(best):
            if clock() - t0 > budget:
                break
            tried += 1
            cand = json.loads(json.dumps(cand))
            r = run_isolated(prop, ux, cand, limit, seed)
            if not r["ok"] and r["kind"] == res["kind"] and not r.get("known"):
                best, bres = cand, r
                improved = True
                break
        if not improved and hasattr(prop, "freeze"):
            cand = prop.freeze(best, bres)
            if cand is not None:
                r = run_isolated(prop, ux, cand, limit, seed)
                if not r["ok"] and r["kind"] == res["kind"]:
                    best, bres, improved = cand, r, True
    log("minimised with %d candidate runs" % tried)
    return best, bres


def size(case):
    s = case.get("scn") or {}
    return {k: len(s.get(k) or []) for k in ("nodes", "links", "demands", "vehicles", "ops")}


def write_replay(prop, case, res, seed, tier, original):
    os.makedirs(OUT, exist_ok=True)
    p = os.path.join(OUT, "%s-seed%s-case%s.json" % (prop.id, seed, case.get("idx")))
    with open(p, "w") as f:
        json.dump(dict(property=prop.id, seed=seed, tier=tier, index=case.get("idx"), kind=res["kind"], message=res["msg"], digest=res.get("digest"),
                       size=size(case), original_size=size(original), trace=res.get("trace") or [], traceback=res.get("tb"), case=case), f, indent=1)
    return p


def fresh_replay(path, hashseed):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "replay", path], env=e, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    return r.returncode == 1 and "VIOLATION" in r.stdout, r.stdout[-400:]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f).get("findings", [])
    return []


def run_check(pid, tier, seed, n=None, wall=None):
    t0 = clock()
    prop = load(pid)
    ext = build.build(prop.ext) if prop.ext else None
    ux = env.setup(ext)
    if hasattr(prop, "prepare"):
        prop.prepare(ux)
    tbuild = clock() - t0

    def log(*a):
        print(*a, flush=True)
    n = n or int(os.environ.get("DST_CASES", "0")) or (prop.quick_n if tier == "quick" else prop.thorough_n)
    wall = wall or float(os.environ.get("DST_WALL", "0")) or (300 if tier == "quick" else 3000)
    log("%s tier=%s seed=%s cases=%d build=%.1fs" % (pid, tier, seed, n, tbuild))
    findings = [f for f in known_findings() if f["property"] == pid]
    # known findings: each is re-run from its stored case
    for f in findings:
        if f.get("case"):
            r = run_isolated(prop, ux, f["case"], prop.case_limit, seed)
            if not r["ok"] and (r.get("known") == f["id"] or r["kind"] == f["kind"]):
                log("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    t1 = clock()
    workers = [Worker(prop, ux, seed) for _ in range(min(NW, n))]
    nxt = 0
    agg = dict(evaluations=0, runs=0, steps=0, simsec=0.0, nontrivial=0)
    probes, faults, states, distinct = {}, {}, set(), set()
    digests, fails, knowns, retried = {}, [], {}, []
    stop = False
    while True:
        busy = False
        for i, w in enumerate(workers):
            if w.job is None and not stop and nxt < n and clock() - t1 < wall:
                if w.done >= 150:
                    w.close()
                    w = workers[i] = Worker(prop, ux, seed)
                w.send("idx", nxt)
                nxt += 1
            if w.job is not None:
                busy = True
        if not busy:
            break
        ready = mp.connection.wait([w.conn for w in workers if w.job is not None], timeout=0.5)
        for i, w in enumerate(workers):
            if w.job is None:
                continue
            r = None
            if w.conn in ready:
                try:
                    r = w.conn.recv()
                except (EOFError, OSError):
                    r = dict(ok=False, kind="crash", msg="the process executing the simulation died")
            elif clock() - w.t0 > prop.case_limit:
                r = dict(ok=False, kind="hang", msg="the simulated run did not finish within %d s" % prop.case_limit)
            if r is None:
                continue
            idx = w.job
            if r["kind"] in ("crash", "hang"):
                w.kill()
                workers[i] = Worker(prop, ux, seed)
                case = case_of(prop, seed, idx)
                k0 = r["kind"]
                r = run_isolated(prop, ux, case, prop.case_limit * 2, seed)
                retried.append([idx, k0, r["ok"]])
            else:
                w.job = None
                w.done += 1
            agg["evaluations"] += 1
            for k in ("runs", "steps", "simsec"):
                agg[k] += r.get(k, 0)
            for k, v in r.get("probes", {}).items():
                probes[k] = probes.get(k, 0) + v
            for k, v in r.get("faults", {}).items():
                faults[k] = faults.get(k, 0) + v
            if len(states) < 3000000:
                states.update(r.get("states", ()))
            if r.get("nontrivial"):
                distinct.add(r["digest"])
            digests[idx] = r.get("digest")
            if not r["ok"]:
                if r.get("known"):
                    knowns[r["known"]] = knowns.get(r["known"], 0) + 1
                else:
                    fails.append((idx, r))
                    if len(fails) >= 3 or tier == "quick":
                        stop = True
    for w in workers:
        w.close()
    tsearch = clock() - t1
    # determinism: a sample again, in a fresh interpreter with another hash seed and one worker
    det = dict(sampled=0, mismatches=[])
    if not fails and os.environ.get("DST_NODET") is None:
        k = getattr(prop, "det_n", 6) if tier == "quick" else 40
        idxs = sorted(digests)[:: max(1, len(digests) // k)][:k]
        if idxs:
            e = dict(os.environ, PYTHONHASHSEED="4242", VERIF_SEED=str(seed))
            try:
                r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "digests", pid] + [str(i) for i in idxs], env=e, capture_output=True, text=True, timeout=240)
                got = json.loads(r.stdout.strip().splitlines()[-1])
                for i in idxs:
                    det["sampled"] += 1
                    if got.get(str(i)) != digests[i]:
                        det["mismatches"].append(i)
            except Exception as ex:
                det["error"] = repr(ex)[:200]
        if det["mismatches"] and getattr(prop, "det_violation", False):
            i = det["mismatches"][0]
            fails.append((i, dict(ok=False, kind="cross-process", msg="another process with another hash seed computes a different history", digest=digests[i])))
    if fails and os.environ.get("DST_FAST"):
        # mutation analysis: the verdict alone
        log("case %d fails: %s: %s" % (fails[0][0], fails[0][1]["kind"], fails[0][1]["msg"]))
        return 1
    nviol = 0
    viol_lines = []
    seen = set()
    for idx, r in fails:
        if r["kind"] in seen:
            continue
        seen.add(r["kind"])
        case = case_of(prop, seed, idx)
        log("case %d fails: %s: %s" % (idx, r["kind"], r["msg"]))
        if r["kind"] != "cross-process":
            best, bres = minimise(prop, ux, case, r, (45 if tier == "quick" else 300) / (1 + 2 * (nviol > 0)), seed, log)
            if bres is r:
                x = run_isolated(prop, ux, best, prop.case_limit * 2, seed)
                if not x["ok"] and x["kind"] == r["kind"]:
                    bres = x
        else:
            best, bres = case, r
        path = write_replay(prop, best, bres, seed, tier, case)
        if r["kind"] != "cross-process":
            ok = False
            for hs in (1, 99):
                ok, outp = fresh_replay(path, hs)
                if ok:
                    break
            log("replay in a fresh process: %s" % ("reproduced" if ok else "NOT reproduced: " + outp))
        nviol += 1
        log("minimised %s -> %s" % (size(case), size(best)))
        log("%s: %s" % (bres["kind"], bres["msg"]))
        line = "VIOLATION property=%s replay=%s" % (pid, path)
        viol_lines.append(line)
        log(line)
    wall_s = clock() - t0
    sample_idx = [i for i in sorted(digests)[:3]]
    samples = []
    for i in sample_idx:
        c = case_of(prop, seed, i)
        s = json.dumps(c)
        samples.append(c if len(s) < 6000 else dict(index=i, size=size(c), world=(c.get("scn") or {}).get("world"), ops=(c.get("scn") or {}).get("ops"), abridged=s[:1500]))
    hours = max(tsearch, 1e-9) / 3600
    cov = dict(evaluations=agg["evaluations"], distinct_nontrivial=len(distinct), rule=prop.rule, samples=samples,
               seeds_per_hour=round(agg["evaluations"] / hours), simulated_runs=agg["runs"], simulated_runs_per_hour=round(agg["runs"] / hours),
               simulated_seconds=round(agg["simsec"], 1), simulated_steps=agg["steps"],
               faults_injected=dict(sorted(faults.items())), probes=dict(sorted(probes.items())), probes_at_zero=[p for p in getattr(prop, "want_probes", []) if not probes.get(p) and not faults.get(p)],
               distinct_states=len(states), distinct_states_measure=getattr(prop, "state_measure", "hash of (status, link, position) of all vehicles after each step"),
               determinism=det, retried=retried, known_findings_hit=knowns, search_wall_s=round(tsearch, 1), workers=NW,
               components=dict(real=prop.real, stubbed=prop.stub))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=prop.assumptions, wall_s=round(wall_s, 2), violations=nviol)
    if not os.environ.get("DST_NOEVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s: %d runs of %d seeds, %d steps, %.0f simulated s, %d distinct states, faults %s, det %s, %.1f s" % (
        pid, agg["runs"], agg["evaluations"], agg["steps"], agg["simsec"], len(states), sum(faults.values()), det, wall_s))
    if agg["evaluations"] == 0:
        return 2
    return 1 if nviol else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = load(d["property"])
    ext = build.build(prop.ext) if prop.ext else None
    ux = env.setup(ext)
    if hasattr(prop, "prepare"):
        prop.prepare(ux)
    if d["kind"] == "cross-process":
        r = execute(prop, ux, d["case"])
        print("digest %s, recorded %s" % (r["digest"], d["digest"]))
        return 0
    r = run_isolated(prop, ux, d["case"], prop.case_limit * 2, d["seed"])
    if r["ok"]:
        print("not reproduced: the property held on this replay")
        return 0
    print("%s: %s" % (r["kind"], r["msg"]))
    print("same kind: %s, same execution digest: %s" % (r["kind"] == d["kind"], r.get("digest") == d.get("digest")))
    for t in (r.get("trace") or [])[-60:]:
        print("  ", t)
    if os.environ.get("DST_DEBUG") and r.get("tb"):
        print(r["tb"])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def digests(pid, idxs, seed):
    prop = load(pid)
    ext = build.build(prop.ext) if prop.ext else None
    ux = env.setup(ext)
    if hasattr(prop, "prepare"):
        prop.prepare(ux)
    out = {}
    for i in idxs:
        r = run_isolated(prop, ux, case_of(prop, seed, i), prop.case_limit * 2, seed)
        out[str(i)] = r.get("digest")
    print(json.dumps(out))
    return 0
