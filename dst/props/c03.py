"""C03: counts, densities, travel times against the movements."""
from ._lock import LockProp, fail


class C03(LockProp):
    id = "C03"
    opts = dict(n_ops=[0, 3, 6, 12])
    want_probes = ["queries", "transferred", "aborted", "entry_times_checked"]

    def hooks(self, s, case, ctx):
        ent, prev = {}, {}
        A = {l["name"]: 0 for l in case["scn"]["links"]}
        D = dict(A)
        hist = self.hist = {l: dict(A=[], D=[], tti=[]) for l in A}
        self.tt = {}
        self.ent, self.sim = ent, s
        fq = len(case["scn"]["nodes"]) % 3 == 0     # whether to read the curves by query while running

        def hk(sim, obs):
            W, T, DN, DT = sim.W, sim.T, sim.W.DELTAN, sim.W.DELTAT
            for nm, (st, lk, x, vv, lane) in obs.veh.items():
                p = prev.get(nm)
                if p is not None and p[0] in ("end", "abort"):
                    continue
                path = None
                was = p[1] if p is not None else None
                if st == "run" and lk != was:
                    if was is not None:
                        D[was] += DN
                        self.left(was, ent[nm], (T - ent[nm]) * DT, nm)
                    A[lk] += DN
                    ent[nm] = T
                elif st in ("end", "abort"):
                    ll = obs.last_link(nm)
                    if ll is not None and ll != was:
                        if was is not None:
                            D[was] += DN
                            self.left(was, ent[nm], (T - ent[nm]) * DT, nm)
                        A[ll] += DN
                        ent[nm] = T
                        was = ll
                    if was is not None:
                        D[was] += DN
                        self.left(was, ent[nm], (T + 1 - ent[nm]) * DT, nm)
                prev[nm] = (st, lk)
            for l in W.LINKS:
                n, o, h = l.name, obs.link[l.name], hist[l.name]
                if abs(o["A"] - A[n]) > 1e-6 or abs(o["D"] - D[n]) > 1e-6:
                    fail("count", "step %d: link %s reports %s arrivals and %s departures, %s vehicles entered and %s left" % (T, n, o["A"], o["D"], A[n], D[n]))
                h["A"].append(A[n]); h["D"].append(D[n]); h["tti"].append(o["tti"])
            if fq and T % 7 == 3:
                self.queries(sim, ctx, hist, T)
        return [hk]

    def left(self, link, k, dur, nm):
        """Of the vehicles that entered `link` in step k those leaving last count (several may leave in one step)."""
        T = self.sim.T
        r = self.tt.get((link, k))
        if r is None or r[0] < T:
            self.tt[(link, k)] = (T, [dur], nm)
        else:
            r[1].append(dur)

    def queries(self, sim, ctx, hist, T):
        """The time-indexed link reports against the recorded movements."""
        W, DT = sim.W, sim.W.DELTAT
        for l in W.LINKS:
            h = hist[l.name]
            for k in {0, T // 3, T // 2, T}:
                t = k * DT + (DT * 0.5 if k < T else 0)
                a, d, i = h["A"][k], h["D"][k], h["tti"][k]
                got = (l.arrival_count(t), l.departure_count(t), l.num_vehicles_t(t), l.average_density(t), l.instant_travel_time(t), l.average_speed(t), l.average_flow(t))
                exp = (a, d, a - d, (a - d) / l.length, i, l.length / i, (a - d) / l.length * l.length / i)
                for g, e, nm in zip(got, exp, ("arrival_count", "departure_count", "num_vehicles_t", "average_density", "instant_travel_time", "average_speed", "average_flow")):
                    if abs(g - e) > 1e-6 * max(1, abs(e)):
                        fail("query", "step %d: %s(%s) of link %s is %s, the movements give %s" % (T, nm, t, l.name, g, e))
                ctx.probe("queries", 7)
                if k < T:
                    j = (k + T) // 2
                    if j > k:
                        f = l.inflow_between(k * DT, j * DT)
                        e = (h["A"][j] - h["A"][k]) / ((j - k) * DT)
                        if abs(f - e) > 1e-6 * max(1, e):
                            fail("query", "step %d: inflow_between(%s, %s) of link %s is %s, the movements give %s" % (T, k * DT, j * DT, l.name, f, e))

    def finish(self, s, case, ctx):
        W, DT, T = s.W, s.W.DELTAT, s.T
        if not self.hist or not s.W.LINKS or T < 0:
            return
        self.queries(s, ctx, self.hist, T)
        self.on = {(o[1], self.ent[nm]) for nm, o in s.last_obs.veh.items() if o[0] == "run"}
        for l in W.LINKS:
            A, D = list(l.cum_arrival), list(l.cum_departure)
            h = self.hist[l.name]
            n = T + 1
            if [float(x) for x in A[:n]] != [float(x) for x in h["A"]] or [float(x) for x in D[:n]] != [float(x) for x in h["D"]]:
                fail("count", "the cumulative curves of link %s at the end differ from the movements" % l.name)
            tt = l.traveltime_actual
            for (ln, k), (_, durs, nm) in self.tt.items():
                if ln != l.name or k >= len(tt):
                    continue
                if (ln, k) in self.on:      # somebody who entered then is still there
                    continue
                if min(abs(tt[k] - d) for d in durs) > 1e-6:
                    fail("tta", "link %s reports an actual travel time of %s for step %d; vehicle %s, the last to leave of those who entered then, took %s" % (ln, tt[k], k, nm, durs))
                if abs(l.actual_travel_time(k * DT + 0.25 * DT) - tt[k]) > 1e-9:
                    fail("query", "actual_travel_time(%s) of link %s differs from the record" % (k * DT, ln))
                ctx.probe("entry_times_checked")
        if s.model:
            for l in W.LINKS:
                m = s.model.links[l.name]
                tt = l.traveltime_actual
                for t in m.enter_log:
                    k = int(t / DT)
                    if k < len(tt) and abs(tt[k] - m.tta[k]) > 1e-6 * max(1, m.tta[k]):
                        fail("tta", "link %s reports an actual travel time of %s for entry step %d, the last vehicle that entered then took %s" % (l.name, tt[k], k, m.tta[k]))
                    ctx.probe("entry_times_checked")
            ts = sorted(m.enter_log)
            if ts and s.engine == "py":
                a, b = ts[0], ts[-1] + DT
                l = W.get_link(m.name)
                got = l.average_travel_time_between(a, b)
                idx = [m.tta[min(len(m.tta) - 1, int(t // DT))] for t in ts]
                if abs(got - sum(idx) / len(idx)) > 1e-6 * max(1, got):
                    fail("query", "average_travel_time_between(%s, %s) of link %s is %s, the vehicles that entered took %s on average" % (a, b, l.name, got, sum(idx) / len(idx)))


PROP = C03()
