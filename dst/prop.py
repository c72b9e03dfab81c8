"""Interface between the runner and a property's check."""
import hashlib
from . import scen


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Ctx:
    """What one simulated run reports besides its verdict."""

    def __init__(self, ux):
        self.ux = ux
        self.probes, self.faults = {}, {}
        self.states = set()
        self.steps, self.simsec, self.runs = 0, 0.0, 0
        self.h = hashlib.sha256()
        self.trace = []

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def feed(self, x):
        self.h.update(x if isinstance(x, bytes) else repr(x).encode())

    def note(self, *a):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in a))

    def take(self, sim):
        """Collects the counters of a finished Sim."""
        self.runs += 1
        self.steps += sim.T + 1
        self.simsec += (sim.T + 1) * sim.W.DELTAT
        for k, v in sim.faults.items():
            self.fault(k, v)
        if sim.model:
            for k, v in sim.model.probes.items():
                self.probe(k, v)
        elif getattr(sim, "foreign", None):
            self.probe("model_dropped:" + sim.foreign[0])
        rng = getattr(sim.W, "rng", None)
        for k, v in getattr(rng, "fired", {}).items():
            self.fault("rng-" + k, v)
        self.states |= sim.states
        self.feed(sim.digest())


class Prop:
    id = None
    ext = None              # None, "plain" or "simthr": which compiled engine the check needs
    quick_n, thorough_n = 400, 20000
    rule = ""
    real, stub, assumptions = [], [], []
    case_limit = 60         # seconds one case may take before it counts as a hang

    def gen(self, rng, idx):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def nontrivial(self, ctx):
        return ctx.steps > 0 and (ctx.probes.get("generated", 0) > 0 or ctx.probes.get("moved", 0) > 0)

    def shrink(self, case):
        if "scn" in case:
            for s in scen.shrink_case(case["scn"]):
                x = dict(case)
                x["scn"] = s
                yield x

    def known(self, case, viol):
        """Name of the known finding this violation is an instance of, or None."""
        return None
