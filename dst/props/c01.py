"""C01: conservation and lifecycle."""
from ._lock import LockProp, fail

NEXT = {"home": {"home", "wait"}, "wait": {"wait", "run", "end", "abort"}, "run": {"run", "end", "abort"}, "end": {"end"}, "abort": {"abort"}}


class C01(LockProp):
    id = "C01"
    want_probes = ["generated", "transferred", "aborted", "held_at_origin", "departed", "veh", "engine_cpp", "finished"]

    def world_over(self, rng, engine):
        return {}

    def make_opts(self, rng, engine):
        o = LockProp.make_opts(self, rng, engine)
        o["p_unreach"] = rng.choice([0.03, 0.3])
        return o

    def hooks(self, s, case, ctx):
        prev = {}

        def hk(sim, obs):
            W, T, DN = sim.W, sim.T, sim.W.DELTAN
            by = {"home": set(), "wait": set(), "run": set(), "end": set(), "abort": set()}
            for nm in prev:
                if nm not in obs.veh:
                    fail("lost", "step %d: vehicle %s is no longer in the world's registry" % (T, nm))
            for nm, (st, lk, x, vv, lane) in obs.veh.items():
                v = W.VEHICLES[nm]
                if nm in sim.done and prev.get(nm) in ("end", "abort"):
                    if v.state != sim.done[nm][0] or v.link is not None:
                        fail("revived", "step %d: finished vehicle %s is '%s' on %s" % (T, nm, v.state, v.link))
                if st not in by:
                    fail("state", "step %d: vehicle %s is in the unknown state %s" % (T, nm, st))
                p = prev.get(nm, "home")
                if st not in NEXT[p]:
                    fail("lifecycle", "step %d: vehicle %s went from '%s' to '%s'" % (T, nm, p, st))
                if p == "home" and st != "home" and T < v.departure_time:
                    fail("early", "step %d: vehicle %s departed before its departure step %s" % (T, nm, v.departure_time))
                if (st == "run") != (lk is not None):
                    fail("place", "step %d: vehicle %s is '%s' and its link is %s" % (T, nm, st, lk))
                if st in ("end", "abort") and p not in ("end", "abort"):
                    ctx.probe("finished")
                by[st].add(nm)
                prev[nm] = st
            live = by["home"] | by["wait"] | by["run"]
            if set(W.VEHICLES_LIVING) != live:
                fail("registry", "step %d: registry of living vehicles differs from the vehicles' states by %s" % (T, sorted(set(W.VEHICLES_LIVING) ^ live)[:5]))
            if set(W.VEHICLES_RUNNING) != by["run"]:
                fail("registry", "step %d: registry of running vehicles differs from the vehicles' states by %s" % (T, sorted(set(W.VEHICLES_RUNNING) ^ by["run"])[:5]))
            onlink = {}
            for nm in by["run"]:
                onlink.setdefault(obs.veh[nm][1], set()).add(nm)
            for l in W.LINKS:
                on = onlink.get(l.name, set())
                if sim.engine == "py":
                    lst = [v.name for v in l.vehicles]
                    if len(lst) != len(set(lst)) or set(lst) != on:
                        fail("link-list", "step %d: link %s lists %s, vehicles on it are %s" % (T, l.name, lst[:8], sorted(on)[:8]))
                if abs(obs.link[l.name]["n"] - len(on) * DN) > 1e-9:
                    fail("link-count", "step %d: link %s reports %s vehicles, %s platoons of %s are on it" % (T, l.name, obs.link[l.name]["n"], len(on), DN))
                d = obs.link[l.name]["A"] - obs.link[l.name]["D"]
                if abs(d - len(on) * DN) > 1e-6:
                    fail("link-count", "step %d: arrivals minus departures of link %s are %s, %s vehicles are on it" % (T, l.name, d, len(on) * DN))
            if sim.engine == "py":
                q = {}
                for n in W.NODES:
                    for v in n.generation_queue:
                        if v.name in q or v.orig is not n:
                            fail("queue", "step %d: vehicle %s is queued at %s (origin %s, also queued at %s)" % (T, v.name, n.name, v.orig.name, q.get(v.name)))
                        q[v.name] = n.name
                if set(q) != by["wait"]:
                    fail("queue", "step %d: origin queues differ from the waiting vehicles by %s" % (T, sorted(set(q) ^ by["wait"])[:5]))
        return [hk]


PROP = C01()
