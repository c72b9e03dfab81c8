"""Control of the simulated OpenMP runtime (simomp/) inside the instrumented engine."""
import ctypes, os, subprocess, threading
from . import env

MODES = dict(seq=0, random=1, pct=2, rr=3, replay=4, reverse=5, perm=6)
STATS = ["regions", "events", "switches", "barriers", "criticals", "contended", "singles", "hash", "teamcut", "nested", "atomics"]


def fatal_path(pid):
    return os.path.join(env.VERIF, "out", "fatal-%d" % pid)


def fresh(f, *a):
    """Runs f in a new thread: the engine's thread-local data of the calling thread is new, too."""
    out = []

    def body():
        try:
            out.append((True, f(*a)))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    ok, x = out[0]
    if ok:
        return x
    raise x


class SimThr:
    def __init__(self, path):
        self.path = path
        self.pid = None
        L = self.lib = ctypes.CDLL(path)
        L.simomp_config.argtypes = [ctypes.c_int, ctypes.c_ulonglong, ctypes.c_double] + [ctypes.c_int] * 5 + [ctypes.c_ulonglong]
        L.simomp_config.restype = None
        os.makedirs(os.path.join(env.VERIF, "out"), exist_ok=True)
        if L.simomp_nstats() != len(STATS):
            raise RuntimeError("simomp statistics layout")

    def start(self, sched, max_events=30_000_000):
        """sched: dict(mode=…, seed, p, quantum, depth, cap, max) or dict(list=[[region, event, tid], …], cap, seed, max)."""
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.lib.simomp_fatal_path(fatal_path(self.pid).encode())
            try:
                # one thread runs at a time: passing the baton is cheapest on one processor
                cpus = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {cpus[self.pid % len(cpus)]})
            except OSError:
                pass
        mode = "replay" if "list" in sched else sched["mode"]
        if mode == "replay":
            flat = [x for d in sched["list"] for x in d]
            self.lib.simomp_replay(len(sched["list"]), (ctypes.c_uint32 * max(1, len(flat)))(*flat))
        self.lib.simomp_config(MODES[mode], sched.get("seed", 1), sched.get("p", 0.0), sched.get("quantum", 50), sched.get("depth", 3),
                               sched.get("cap", 0), sched.get("max", 4), 1, max_events)

    def stats(self):
        a = (ctypes.c_uint64 * len(STATS))()
        self.lib.simomp_stats(a)
        return dict(zip(STATS, a))

    def trace(self):
        n = self.lib.simomp_trace(0, None)
        a = (ctypes.c_uint32 * max(1, 3 * n))()
        self.lib.simomp_trace(n, a)
        return [[a[3 * i], a[3 * i + 1], a[3 * i + 2]] for i in range(n)]

    def races(self):
        a = (ctypes.c_uint64 * (6 * 256))()
        n = self.lib.simomp_races(256, a)
        out = []
        for i in range(n):
            r = a[6 * i:6 * i + 6]
            out.append(dict(pc=(r[0], r[1]), region=r[2], t=(r[3] & 255, r[4] & 255), w=(r[3] >> 8, r[4] >> 8)))
        return out

    def locate(self, pcs):
        """pc offsets -> 'function (file:line)', innermost engine frame of the inlined chain first."""
        r = subprocess.run(["addr2line", "-Cfipe", self.path] + [hex(p - 1) for p in pcs], capture_output=True, text=True)
        out, cur = [], []
        for line in r.stdout.splitlines():
            if line.startswith(" (inlined by)"):
                cur.append(line[14:])
            else:
                if cur:
                    out.append(cur)
                cur = [line]
        if cur:
            out.append(cur)
        res = []
        for c in out:
            eng = [x for x in c if "/trafficpp/" in x]
            x = (eng or c)[0]
            res.append(x.strip().replace(env.REPO + "/", ""))
        return res

    def describe(self, race):
        l = self.locate(race["pc"])
        return "%s by thread %d at %s and %s by thread %d at %s" % (
            "write" if race["w"][0] else "read", race["t"][0], l[0] if l else "?", "write" if race["w"][1] else "read", race["t"][1], l[1] if len(l) > 1 else "?")


def read_fatal(pid):
    """(what, decisions) a dead process left behind, or None."""
    p = fatal_path(pid)
    try:
        with open(p) as f:
            lines = f.read().splitlines()
        os.unlink(p)
    except OSError:
        return None
    return (lines[0] if lines else "?"), [[int(x) for x in l.split()] for l in lines[1:] if len(l.split()) == 3]


def gen_sched(rng, threads):
    z = rng.random()
    s = dict(seed=rng.randrange(1, 10 ** 9), cap=rng.choice([0, 0, 0, 1, 2]), max=rng.choice([1, 2, 3, 4, 6]))
    if z < 0.5:
        s.update(mode="random", p=rng.choice([0.3, 0.1, 0.03, 0.01, 0.003, 0.001]))
    elif z < 0.7:
        s.update(mode="pct", depth=rng.choice([1, 2, 3, 5]))
    elif z < 0.8:
        s.update(mode="rr", quantum=rng.choice([1, 7, 40, 300]))
    elif z < 0.87:
        s.update(mode="reverse")
    elif z < 0.95:
        s.update(mode="perm")
    else:
        s.update(mode="seq")
    return s
