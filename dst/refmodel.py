"""Executable reference model of the traffic rules, run in lockstep with the engine.

The model owns the network constants, capacity allowances, signal programmes, queues, positions and
counts.  Everything the engine decides at random (which permitted link, which competing vehicle, which
processing order) is read off the observed successor state and accepted exactly if the rules allow it;
everything else must match.  It is written against the documented rules, works on plain observations of
the public state and therefore serves both engines.

Mismatches are reported as (kind, message); `KINDS` says which properties a kind speaks about.
"""
import math

EPS = 1e-6

KINDS = {
    "gen-order": {"C15", "C01"}, "gen-held": {"C15", "C17", "C04"}, "gen-room": {"C02", "C15"},
    "gen-capacity": {"C04", "C15"}, "gen-route": {"C06", "C19"}, "gen-guidance": {"C19", "C06"},
    "tr-order": {"C02", "C21"}, "tr-red": {"C05"}, "tr-capacity": {"C04"}, "tr-nodecap": {"C04"}, "tr-room": {"C02", "C21"},
    "tr-route": {"C06"}, "tr-held": {"C21", "C05", "C17", "C04"}, "tr-priority": {"C21"}, "tr-slots": {"C21", "C02"},
    "position": {"C02"}, "speed": {"C02"}, "lane": {"C02"}, "departure": {"C15", "C01"}, "trip-end": {"C06", "C01", "C17"},
    "choice": {"C06"}, "guidance-choice": {"C19"}, "cyclic": {"C06"}, "count": {"C03"}, "tti": {"C03"}, "tta": {"C03"}, "stat": {"C03"},
    "phase": {"C05"}, "phase-log": {"C05"}, "teleport": {"C06", "C01"}, "state": {"C01"}, "distance": {"C02", "C13"},
    "arrival": {"C13", "C06"},
}


class MLink:
    pass


class MNode:
    pass


class MVeh:
    __slots__ = ("name", "state", "link", "x", "xold", "mr", "v", "lane", "enter", "wait_end", "aborted", "orig", "dest", "dep", "idx",
                 "choice", "prefer", "avoid", "route", "nlinks", "visited", "dist", "path", "x_next", "at_end", "trip_abort", "ended_t", "rcp")


class RefModel:
    def __init__(self, case, cpp=False):
        w = case["world"]
        self.cpp = cpp
        self.w = w
        self.DN = w["deltan"]
        self.DT = w["reaction_time"] * w["deltan"]
        self.hard = w.get("hard", False)
        self.T = -1
        self.end_eps = 1e-9 if cpp else 0.0
        self.TSIZE = int(w["tmax"] / self.DT)
        self.itt = int(w.get("itt", 5))
        droute = max(1, int(w["duo_update_time"] / self.DT))
        if droute < self.itt:
            self.itt = droute
        self.nodes, self.links = {}, {}
        self.viol = []
        self.probes = {}
        for n in case["nodes"]:
            m = MNode()
            m.name = n["name"]
            m.signal = list(n.get("signal") or [0])
            m.phase, m.t = 0, 0
            if n.get("signal"):
                off = sum(m.signal) - n.get("offset", 0)
                i = 0
                guard = 0
                while True:
                    if off < m.signal[i]:
                        m.phase, m.t = i, off
                        break
                    off -= m.signal[i]
                    i = (i + 1) % len(m.signal)
                    guard += 1
                    if guard > 100000:
                        raise RuntimeError("signal offset")
            m.log = []
            m.fcap = n.get("fcap")
            m.ftok = m.fcap * self.DT if m.fcap is not None else None
            m.flanes = None
            if m.fcap is not None:
                m.flanes = n.get("flanes") or math.ceil(m.fcap / 0.8)
            m.inl, m.outl, m.gq = [], [], []
            self.nodes[m.name] = m
        for l in case["links"]:
            m = MLink()
            m.name, m.a, m.b, m.L, m.u = l["name"], l["a"], l["b"], l["len"], l["u"]
            m.lanes = l.get("lanes", 1)
            if l.get("kpl") is not None:
                m.kappa = l["kpl"] * m.lanes
            else:
                m.kappa = l.get("kappa") if l.get("kappa") is not None else 0.2
            m.tau = w["reaction_time"] / m.lanes
            self._cap(m)
            m.d = 1 / m.kappa * m.lanes
            m.mp = l.get("mp", 1)
            m.sg = list(l.get("sg") or [0])
            m.cin = l["cap_in"] if l.get("cap_in") is not None else m.capacity * 2
            m.cout = l["cap_out"] if l.get("cap_out") is not None else m.capacity * 2
            m.tin = m.cin * self.DT
            m.tout = m.cout * self.DT
            m.q = []
            m.cumA, m.cumD, m.tti = 0, 0, None
            m.A, m.D = [], []
            m.lastlane = None
            m.tta = [m.L / m.u] * self.TSIZE
            m.enter_log = {}
            self.links[m.name] = m
            self.nodes[m.b].inl.append(m)
            self.nodes[m.a].outl.append(m)
        if w.get("adjust"):
            for n in self.nodes.values():
                if n.fcap is None and n.inl and n.outl:
                    n.fcap = (max(l.capacity for l in n.inl) + max(l.capacity for l in n.outl)) / 2
                    n.ftok = n.fcap * self.DT
                    n.flanes = math.ceil(n.fcap / 0.8)
        self.vehs = {}
        self.living = []

    def _cap(self, m):
        m.w = 1 / m.tau / m.kappa
        m.capacity = m.u * m.w * m.kappa / (m.u + m.w)

    def bad(self, kind, msg):
        self.viol.append((kind, "step %d: %s" % (self.T, msg)))

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    # ------------------------------------------------------------ interventions
    def apply_op(self, op):
        k = op[1]
        if k == "cap_in":
            self.links[op[2]].cin = op[3]
        elif k == "cap_out":
            self.links[op[2]].cout = op[3]
        elif k == "mp":
            self.links[op[2]].mp = op[3]
        elif k == "speed":
            l = self.links[op[2]]; l.u = op[3]; self._cap(l)
        elif k == "kappa":
            l = self.links[op[2]]; l.kappa = op[3]; self._cap(l); l.d = 1 / l.kappa * l.lanes
        elif k in ("signal", "groups"):
            n = self.nodes[op[2]]
            n.signal = list(op[3])
            if k == "signal":
                if op[4]:
                    n.phase, n.t = 0, 0
            else:
                for l in n.inl:
                    ph = [i for i, g in enumerate(op[4]) if l.name in g]
                    if ph:
                        l.sg = ph
            if n.phase >= len(n.signal):
                n.phase, n.t = 0, 0
        elif k == "phase":
            n = self.nodes[op[2]]; n.phase, n.t = op[3], op[4]
        elif k == "fcap":
            n = self.nodes[op[2]]
            if n.fcap is None and op[3] is not None:
                n.ftok = 0
                if n.flanes is None:
                    n.flanes = max(math.ceil(op[3] / 0.8), 1)
            n.fcap = op[3]
        elif k == "prefer":
            self.vehs[op[2]].prefer = list(op[3])
        elif k == "avoid":
            self.vehs[op[2]].avoid = list(op[3])

    def add_vehicle(self, name, orig, dest, dep_step, prefer=(), avoid=(), route=None, trip_abort=1, rcp=None):
        v = MVeh()
        v.name, v.orig, v.dest, v.dep = name, orig, dest, dep_step
        v.state, v.link, v.x, v.xold, v.mr, v.v, v.lane = "home", None, 0, 0, 0, 0, 0
        v.enter, v.wait_end, v.aborted, v.choice = None, False, False, None
        v.prefer, v.avoid, v.route = list(prefer), list(avoid), (list(route) if route else None)
        if v.route:
            v.prefer = list(v.route)
        v.nlinks, v.visited, v.dist, v.path, v.x_next, v.at_end = 0, set(), 0.0, [], 0, False
        v.trip_abort, v.ended_t = trip_abort, None
        v.rcp = rcp
        v.idx = len(self.vehs)
        self.vehs[name] = v
        self.living.append(v)

    # ------------------------------------------------------------ helpers
    def room(self, l, lo=False):
        if len(l.q) < l.lanes:
            return True
        x = l.q[-l.lanes].x
        return x > l.d * self.DN + ((1e-9 if lo else -1e-9) if x > 0 else 0)

    def candidates(self, v, node, generating):
        """Links the vehicle may choose at `node` (model links)."""
        out = list(node.outl)
        if v.route is not None:
            i = 0 if generating else v.nlinks
            if i < len(v.route):
                return [l for l in out if l.name == v.route[i]]
            return []
        filt = False
        c = out
        if any(l.name in v.prefer for l in c):
            c = [l for l in c if l.name in v.prefer]
            filt = True
        if any(l.name in v.avoid for l in c):
            c = [l for l in c if l.name not in v.avoid]
            filt = True
        if filt and not self.cpp:
            c = sorted(c, key=lambda l: l.name)
        if not generating and self.w.get("no_cyclic"):
            c2 = [l for l in c if l.b not in v.visited]
            if c2:
                c = c2
        return c

    def possible(self, v, cands, pref):
        """Candidates that can really be drawn, given guidance weights (dict or None)."""
        if v.route is not None or pref is None:
            return cands
        ws = [pref.get(l.name, 0.0) for l in cands]
        if self.hard:
            if not cands:
                return cands
            b = max(range(len(cands)), key=lambda i: (ws[i], -i))
            return [cands[b]]
        if sum(ws) > 0:
            return [l for l, wt in zip(cands, ws) if wt > 0]
        return cands

    def enter(self, v, l):
        v.link = l
        v.lane = (l.q[-1].lane + 1) % l.lanes if l.q else 0
        leader = l.q[-l.lanes] if len(l.q) >= l.lanes else None
        l.q.append(v)
        v.nlinks += 1
        v.visited.add(l.a)
        v.path.append((l.name, self.T * self.DT))
        v.at_end = False
        l.cumA += self.DN
        v.enter = self.T * self.DT
        l.enter_log[v.enter] = v.name
        return leader

    def set_tta(self, l, v, tt):
        i = int(v.enter / self.DT)
        n = len(l.tta)
        l.tta[i:] = [tt] * max(0, n - i)

    def finish(self, v):
        l = v.link
        l.cumD += self.DN
        self.set_tta(l, v, (self.T + 1) * self.DT - v.enter)
        assert l.q[0] is v
        l.q.pop(0)
        v.state = "abort" if v.aborted else "end"
        v.ended_t = None if v.aborted else self.T
        v.link = None
        v.x = 0
        v.wait_end = False
        self.living.remove(v)

    # ------------------------------------------------------------ one step
    def step(self, obs):
        """obs: Observation of the engine right after step self.T+1; checks and adopts it."""
        self.T += 1
        T, DN, DT = self.T, self.DN, self.DT
        nviol0 = len(self.viol)
        # 1 links
        for l in self.links.values():
            if l.tout < DN * l.lanes:
                l.tout += l.cout * DT
            if l.tin < DN * l.lanes:
                l.tin += l.cin * DT
            if T % self.itt == 0:
                sp = sum(v.v for v in l.q) / len(l.q) if l.q else l.u
                l.tti = l.L / sp if sp > 0 else l.L / (l.u / 100)
        # what happened, as observed
        entered = {}
        for v in self.living:
            o = obs.veh.get(v.name)
            if o is None:
                self.bad("state", "vehicle %s has disappeared" % v.name)
                return
            st, lk = o[0], o[1]
            if v.state in ("home", "wait"):
                if st == "run":
                    entered[v.name] = lk
                elif st in ("end", "abort"):
                    entered[v.name] = obs.last_link(v.name)
            elif v.state == "run":
                if st == "run":
                    if lk != v.link.name:
                        entered[v.name] = lk
                elif st in ("end", "abort"):
                    ll = obs.last_link(v.name) if obs.short else None
                    if ll is not None and ll != v.link.name:
                        entered[v.name] = ll
                    elif ll is not None and obs.n_links(v.name) not in (None, v.nlinks):
                        entered[v.name] = ll
        # 2 generation and signals
        for n in self.nodes.values():
            if n.outl and n.gq:
                slots = sum(l.lanes for l in n.outl)
                for _ in range(slots):
                    if not n.gq:
                        break
                    v = n.gq[0]
                    cands = self.candidates(v, n, True)
                    pref = obs.pre_pref(v.name, True)
                    poss = self.possible(v, cands, pref)
                    ok = [self.room(l, True) and l.tin >= DN + 1e-9 for l in poss]
                    tgt = entered.get(v.name)
                    if tgt is not None and v.state == "wait":
                        l = self.links.get(tgt)
                        if l is None or l.a != n.name:
                            self.bad("teleport", "vehicle %s left its origin %s onto link %s" % (v.name, n.name, tgt))
                            return
                        if l not in cands:
                            self.bad("gen-route", "vehicle %s entered link %s, permitted were %s" % (v.name, tgt, [c.name for c in cands]))
                        elif l not in poss:
                            self.bad("gen-guidance", "vehicle %s entered link %s, guidance allows %s" % (v.name, tgt, [c.name for c in poss]))
                        if not self.room(l):
                            self.bad("gen-room", "vehicle %s entered link %s without room (vehicle ahead in the lane at %.3f, jam spacing of a platoon %.3f)" % (v.name, tgt, l.q[-l.lanes].x, l.d * DN))
                        if l.tin < DN - EPS:
                            self.bad("gen-capacity", "vehicle %s entered link %s with an inflow allowance of %.4f" % (v.name, tgt, l.tin))
                        n.gq.pop(0)
                        v.state = "run"
                        v.x = v.xold = 0
                        self.enter(v, l)
                        v.v = l.u
                        l.tin -= DN
                        self.probe("generated")
                    else:
                        if poss and all(ok):
                            self.bad("gen-held", "vehicle %s kept waiting at %s though %s had room and capacity" % (v.name, n.name, [c.name for c in poss]))
                        self.probe("held_at_origin")
                        break
                for v in n.gq:
                    if v.state == "wait" and v.name in entered:
                        self.bad("gen-order", "vehicle %s left %s before vehicles queued ahead of it" % (v.name, n.name))
                        return
            if n.t > n.signal[n.phase]:
                n.phase = (n.phase + 1) % len(n.signal)
                n.t = 0
            n.t += DT
            n.log.append(n.phase)
            if n.fcap is not None and n.ftok < DN * n.flanes:
                n.ftok += n.fcap * DT
        for v in self.living:
            if v.state in ("home", "wait") and v.name in entered:
                self.bad("gen-order" if v.state == "wait" else "departure", "vehicle %s (%s) entered %s without having been the first in its origin's queue" % (v.name, v.state, entered[v.name]))
                return
        # 3 transfers
        for n in self.nodes.values():
            if not self.transfer(n, entered, obs):
                return
        moved = [v.name for v in self.living if v.state == "run" and v.name in entered and v.link.name != entered[v.name]]
        if moved:
            v = self.vehs[moved[0]]
            self.bad("teleport", "vehicle %s moved from link %s to %s without being at the end of it" % (v.name, v.link.name, entered[v.name]))
            return
        # 4 car following
        for l in self.links.values():
            for i, v in enumerate(l.q):
                xn = v.x + l.u * DT
                if i >= l.lanes:
                    lead = l.q[i - l.lanes]
                    xc = lead.x - l.d * DN
                    if xc < v.x:
                        xc = v.x
                    if xn > xc:
                        xn = xc
                        self.probe("following")
                if xn > l.L:
                    v.mr = xn - l.L
                    xn = l.L
                v.x_next = xn
        # 5 updates
        if self.cpp:
            order = [v for l in self.links.values() for v in list(l.q)]
            order += [v for v in self.living if v.state in ("home", "wait")]
        else:
            order = list(self.living)
        for v in order:
            if v.state == "home":
                if T >= v.dep:
                    v.state = "wait"
                    self.nodes[v.orig].gq.append(v)
                    self.probe("departed")
            elif v.state == "run":
                l = v.link
                v.v = (v.x_next - v.x) / DT
                v.xold = v.x
                v.x = v.x_next
                v.dist += v.x - v.xold
                o = obs.veh[v.name]
                if o[0] == "run" and o[1] == l.name and v.x != o[2] and abs(v.x - o[2]) <= EPS * max(1.0, l.L) * 1e-3:
                    v.x = o[2]      # adopt the engine's rounding
                if abs(v.x - l.L) <= self.end_eps:
                    if l.b == v.dest:
                        v.wait_end = True
                        if l.q[0] is v:
                            self.finish(v)
                        else:
                            self.probe("arrived_behind_others")
                    elif not self.nodes[l.b].outl and v.trip_abort == 1:
                        v.aborted = True
                        v.wait_end = True
                        self.probe("aborted")
                        if l.q[0] is v:
                            self.finish(v)
                    else:
                        v.at_end = True
        # 6 compare
        self.compare(obs)
        if len(self.viol) > nviol0:
            self.tainted = True

    # ------------------------------------------------------------ transfers at one node
    def transfer(self, n, entered, obs):
        DN = self.DN
        inc = [v for l in n.inl for v in l.q if v.at_end]
        if not self.cpp:
            inc.sort(key=lambda v: v.idx)
        else:
            inc.sort(key=lambda v: v.idx)
        ent = {}
        for l in n.outl:
            seq = [v for v in self.living if v.state == "run" and entered.get(v.name) == l.name and v.link is not l]
            # order of entry: follows from the lanes they were given
            if len(seq) > 1:
                start = (l.q[-1].lane + 1) % l.lanes if l.q else 0
                seq.sort(key=lambda v: (obs.entry_rank(v.name, l.name, start, l.lanes), v.idx))
            ent[l.name] = seq
            for v in seq:
                if v.link.b != n.name:
                    self.bad("teleport", "vehicle %s jumped from link %s to link %s" % (v.name, v.link.name, l.name))
                    return False
                if not v.at_end:
                    self.bad("teleport", "vehicle %s left link %s at x=%.3f before its end (%.3f)" % (v.name, v.link.name, v.x, v.link.L))
                    return False
                if v.choice is not None and v.choice != l.name:
                    self.bad("tr-route", "vehicle %s chose link %s but entered %s" % (v.name, v.choice, l.name))
        if inc:
            want = {}
            for v in inc:
                if v.choice is not None:
                    want.setdefault(v.choice, 0)
            outs = [self.links[c] for c in want if c in self.links and self.links[c].a == n.name]
            total = {l.name: l.lanes for l in outs}
            for l in n.outl:
                if ent[l.name] and l.name not in total:
                    self.bad("tr-route", "vehicles entered link %s that nobody had chosen" % l.name)
                    return False
            if self.hard:
                slots = [l for l in outs for _ in range(l.lanes)]
                res = self.run_slots(n, inc, ent, slots)
            else:
                res = self.search_slots(n, inc, ent, outs, total)
            if res is None:
                self.diagnose(n, inc, ent, outs)
                # follow the engine anyway
                for l in n.outl:
                    for v in ent[l.name]:
                        if v.link.q and v in v.link.q:
                            self.move(n, v, l, forced=True)
            else:
                for v, l in res:
                    self.move(n, v, l)
                if len(inc) > 1:
                    self.probe("competing")
                if len([1 for l in outs if ent[l.name]]) > 1:
                    self.probe("several_outlinks")
        # vehicles that had arrived behind others
        for l in n.inl:
            for _ in range(l.lanes):
                if l.q and l.q[0].wait_end:
                    self.finish(l.q[0])
                else:
                    break
        return True

    def green(self, n, l):
        return len(n.signal) <= 1 or n.phase in l.sg

    def sim_start(self, n, inc, ent):
        return None

    def eligible(self, n, inc, l, st, lo=False):
        out = []
        s = -1e-9 if lo else 1e-9
        for v in inc:
            if v.name in st["gone"]:
                continue
            il = v.link
            if v.choice != l.name or st["head"](il) is not v:
                continue
            if not self.green(n, il):
                continue
            if st["tout"].get(il.name, il.tout) < self.DN - s:
                continue
            out.append(v)
        return out

    def _fresh(self, n):
        return dict(gone=set(), popped={}, tout={}, tin={}, ft=n.ftok, ents={})

    def _apply_state(self, n, seqs):
        """State after the given transfers [(v, l)…] (pure, for the search)."""
        st = self._fresh(n)
        popped = st["popped"]

        def head(il):
            k = popped.get(il.name, 0)
            return il.q[k] if k < len(il.q) else None
        st["head"] = head
        for v, l in seqs:
            il = v.link
            st["gone"].add(v.name)
            popped[il.name] = popped.get(il.name, 0) + 1
            h = head(il)
            if h is not None and h.wait_end:
                popped[il.name] += 1
            st["tout"][il.name] = st["tout"].get(il.name, il.tout) - self.DN
            st["tin"][l.name] = st["tin"].get(l.name, l.tin) - self.DN
            st["ents"].setdefault(l.name, []).append(v)
            if n.fcap is not None:
                st["ft"] -= self.DN
        return st

    def accept(self, n, l, st, lo=False):
        """Can l take one more platoon? `lo`: reading borderline comparisons (within rounding) as a no."""
        e = st["ents"].get(l.name, [])
        m = len(l.q) + len(e)
        s = -1e-9 if lo else 1e-9
        if m >= l.lanes:
            if len(e) >= l.lanes:
                return False
            # vehicle `lanes` places ahead of the new one
            back = l.lanes - len(e)
            if not l.q[-back].x > l.d * self.DN + (1e-9 if lo else -1e-9) * (l.q[-back].x > 0):
                return False
        if st["tin"].get(l.name, l.tin) < self.DN - s:
            return False
        if n.fcap is not None and st["ft"] < self.DN - s:
            return False
        return True

    def one(self, n, inc, ent, l, done):
        """Possible results of one slot of link l after `done`: a list out of 'skip' and vehicles."""
        st = self._apply_state(n, done)
        if not self.accept(n, l, st):
            return ["skip"]
        el = self.eligible(n, inc, l, st)
        if not el:
            return ["skip"]
        res = []
        k = len(st["ents"].get(l.name, []))
        if k < len(ent[l.name]):
            v = ent[l.name][k]
            for cand in {tuple(x.name for x in c): c for c in (el, self.eligible(n, inc, l, st, True))}.values():
                if v not in cand:
                    continue
                mps = [x.link.mp for x in cand]
                if self.hard:
                    b = max(range(len(cand)), key=lambda i: (mps[i], -i)) if sum(mps) > 0 else 0
                    if cand[b] is not v:
                        continue
                elif sum(mps) > 0 and v.link.mp <= 0:
                    continue
                res.append(v)
                break
        if not self.accept(n, l, st, True) or not self.eligible(n, inc, l, st, True):
            res.append("skip")
        return res

    def run_slots(self, n, inc, ent, slots):
        target = sum(len(s) for s in ent.values())

        def rec(i, done):
            if i == len(slots):
                return list(done) if len(done) == target else None
            for r in self.one(n, inc, ent, slots[i], done):
                res = rec(i + 1, done if r == "skip" else done + [(r, slots[i])])
                if res is not None:
                    return res
            return None
        return rec(0, [])

    def search_slots(self, n, inc, ent, outs, total):
        target = sum(len(s) for s in ent.values())
        seen = set()

        def rec(left, done):
            key = (tuple(sorted(left.items())), tuple(sorted((l.name, v.name) for v, l in done)))
            if key in seen:
                return None
            seen.add(key)
            if not any(left.values()):
                return list(done) if len(done) == target else None
            for l in outs:
                if left[l.name] <= 0:
                    continue
                for r in self.one(n, inc, ent, l, done):
                    left[l.name] -= 1
                    if r != "skip":
                        done.append((r, l))
                    res = rec(left, done)
                    if res is not None:
                        return res
                    if r != "skip":
                        done.pop()
                    left[l.name] += 1
            return None
        return rec(dict(total), [])

    def diagnose(self, n, inc, ent, outs):
        """The observed transfers have no legal explanation: say why."""
        moved = [(v, l) for l in n.outl for v in ent[l.name]]
        nb = len(self.viol)
        st0 = self._apply_state(n, [])
        per_in = {}
        for v, l in moved:
            per_in.setdefault(v.link.name, []).append(v)
        for v, l in moved:
            il = v.link
            if not self.green(n, il):
                self.bad("tr-red", "vehicle %s crossed %s from link %s in phase %d, its green phases are %s" % (v.name, n.name, il.name, n.phase, il.sg))
        for nm, vs in per_in.items():
            il = self.links[nm]
            heads = [x for x in il.q[:len(vs) + 2 * len(vs)]]
            allowed = []
            for x in il.q:
                if x in vs or x.wait_end:
                    allowed.append(x)
                else:
                    break
            for v in vs:
                if v not in allowed:
                    self.bad("tr-order", "vehicle %s left link %s before %s which is ahead of it" % (v.name, nm, il.q[0].name))
            if il.tout < len(vs) * self.DN - EPS:
                self.bad("tr-capacity", "%d platoon(s) left link %s with an outflow allowance of %.4f" % (len(vs), nm, il.tout))
        for l in n.outl:
            k = len(ent[l.name])
            if not k:
                continue
            if l.tin < k * self.DN - EPS:
                self.bad("tr-capacity", "%d platoon(s) entered link %s with an inflow allowance of %.4f" % (k, l.name, l.tin))
            if k > l.lanes:
                self.bad("tr-slots", "%d platoons entered link %s with %d lane(s) in one step" % (k, l.name, l.lanes))
            else:
                for j in range(k):
                    m = len(l.q) + j
                    if m >= l.lanes and not l.q[-(l.lanes - j)].x > l.d * self.DN:
                        self.bad("tr-room", "vehicle %s entered link %s without room (vehicle ahead in the lane at %.3f, jam spacing of a platoon %.3f)" % (ent[l.name][j].name, l.name, l.q[-(l.lanes - j)].x, l.d * self.DN))
        if n.fcap is not None and n.ftok < len(moved) * self.DN - EPS:
            self.bad("tr-nodecap", "%d platoon(s) crossed node %s with an allowance of %.4f" % (len(moved), n.name, n.ftok))
        if len(self.viol) > nb:
            return
        # every move is legal by itself: somebody was passed over, or priority was not respected
        held = []
        order = [(v, l) for v, l in moved]
        st = self._apply_state(n, order)
        for l in outs:
            if self.accept(n, l, st) and self.eligible(n, inc, l, st) and len(st["ents"].get(l.name, [])) < l.lanes:
                held.append((l.name, [v.name for v in self.eligible(n, inc, l, st)]))
        for v, l in moved:
            comp = [x for x in inc if x.choice == l.name and x.link.q[0] is x and self.green(n, x.link) and x.link.tout >= self.DN and x is not v]
            if v.link.mp == 0 and any(x.link.mp > 0 for x in comp):
                self.bad("tr-priority", "vehicle %s of zero priority link %s entered %s while %s competed" % (v.name, v.link.name, l.name, [x.name for x in comp]))
                return
        if held:
            self.bad("tr-held", "at node %s %s could have gone but nobody was served" % (n.name, held))
        else:
            self.bad("tr-priority" if self.hard else "tr-held", "at node %s no processing order explains the transfers %s (waiting: %s)" % (
                n.name, [(v.name, v.link.name, l.name) for v, l in moved], [(v.name, v.link.name, v.choice) for v in inc]))

    def move(self, n, v, l, forced=False):
        il = v.link
        if forced:
            il.q.remove(v)
        else:
            il.q.pop(0)
        il.cumD += self.DN
        self.set_tta(il, v, self.T * self.DT - v.enter)
        il.tout -= self.DN
        l.tin -= self.DN
        if n.fcap is not None:
            n.ftok -= self.DN
        leader = self.enter(v, l)
        xn = v.mr * l.u / il.u if il.u else 0
        if leader is not None:
            xc = leader.xold - l.d * self.DN
            if xc < 0:
                xc = 0
            if xn > xc:
                xn = xc
        if xn >= l.L:
            xn = l.L
        v.x = xn
        v.mr = 0
        v.choice = None
        self.probe("transferred")
        if il.q and il.q[0].wait_end:
            self.finish(il.q[0])

    # ------------------------------------------------------------ comparison
    def compare(self, obs):
        for v in self.vehs.values():
            o = obs.veh.get(v.name)
            if o is None:
                continue
            st, lk, x, vv, lane = o[:5]
            if v.state in ("end", "abort") and st == v.state:
                continue
            if st != v.state:
                if {st, v.state} & {"end", "abort"}:
                    k = "trip-end"
                elif {st, v.state} <= {"home", "wait"}:
                    k = "departure"
                else:
                    k = "state"
                self.bad(k, "vehicle %s is '%s', expected '%s' (departure step %s, link %s)" % (v.name, st, v.state, v.dep, v.link.name if v.link else None))
                continue
            if st == "run":
                if lk != v.link.name:
                    self.bad("teleport", "vehicle %s is on %s, expected %s" % (v.name, lk, v.link.name))
                    continue
                tol = EPS * max(1.0, v.link.L)
                if abs(x - v.x) > tol:
                    self.bad("position", "vehicle %s on link %s is at %.6f, the rules put it at %.6f (was %.6f)" % (v.name, lk, x, v.x, v.xold))
                if abs(vv - v.v) > tol:
                    self.bad("speed", "vehicle %s on link %s has speed %.6f, its movement gives %.6f" % (v.name, lk, vv, v.v))
                if lane != v.lane:
                    self.bad("lane", "vehicle %s on link %s is in lane %s, expected %s" % (v.name, lk, lane, v.lane))
                if v.at_end:
                    c = obs.choice(v.name)
                    v.choice = c
                    n = self.nodes[v.link.b]
                    cands = self.candidates(v, n, False)
                    names = [l.name for l in cands]
                    if c is None:
                        if cands:
                            self.bad("choice", "vehicle %s at the end of %s has chosen no link out of %s" % (v.name, lk, names))
                    elif c not in names:
                        self.bad("choice", "vehicle %s at the end of %s chose %s, permitted were %s" % (v.name, lk, c, names))
                    else:
                        pref = obs.pre_pref(v.name)
                        poss = [l.name for l in self.possible(v, cands, pref)]
                        if c not in poss:
                            self.bad("guidance-choice", "vehicle %s at the end of %s chose %s, guidance to %s allows %s" % (v.name, lk, c, v.dest, poss))
        for l in self.links.values():
            l.A.append(l.cumA)
            l.D.append(l.cumD)
            o = obs.link.get(l.name)
            if o is None:
                continue
            if abs(o["A"] - l.cumA) > EPS or abs(o["D"] - l.cumD) > EPS:
                self.bad("count", "link %s reports %s arrivals and %s departures, really %s and %s" % (l.name, o["A"], o["D"], l.cumA, l.cumD))
            if o["nA"] is not None and (o["nA"] != self.T + 1 or o["nD"] != self.T + 1):
                self.bad("count", "link %s has %s/%s cumulative entries after %d steps" % (l.name, o["nA"], o["nD"], self.T + 1))
            if abs(o["tti"] - l.tti) > EPS * max(1, l.tti):
                self.bad("tti", "link %s reports instantaneous travel time %.6f, current speeds give %.6f" % (l.name, o["tti"], l.tti))
            nv = len(l.q) * self.DN
            sp = sum(v.v for v in l.q) / len(l.q) if l.q else l.u
            qn = sum(1 for v in l.q if v.v < l.u - 1e-9)
            qx = sum(1 for v in l.q if v.v < l.u + 1e-9)
            if abs(o["n"] - nv) > EPS or abs(o["k"] - nv / l.L) > EPS:
                self.bad("stat", "link %s reports %s vehicles, density %s; %s vehicles are on it" % (l.name, o["n"], o["k"], nv))
            if abs(o["v"] - sp) > EPS * max(1, sp) or abs(o["q"] - sp * nv / l.L) > EPS:
                self.bad("stat", "link %s reports speed %s, flow %s; vehicles on it give %s, %s" % (l.name, o["v"], o["q"], sp, sp * nv / l.L))
            if not (qn * self.DN - EPS <= o["nq"] <= qx * self.DN + EPS):
                self.bad("stat", "link %s reports a queue of %s, vehicles below free-flow speed are %s" % (l.name, o["nq"], qn * self.DN))
        for n in self.nodes.values():
            ph = obs.phase.get(n.name)
            if ph is not None and len(n.signal) > 1:
                if ph != n.phase:
                    self.bad("phase", "node %s displays phase %s, its programme says %s" % (n.name, ph, n.phase))
                if obs.siglog.get(n.name) is not None and (obs.siglog[n.name][0] != self.T + 1 or obs.siglog[n.name][1] != ph):
                    self.bad("phase-log", "node %s logs %s after %d steps, displayed phase %s" % (n.name, obs.siglog[n.name], self.T + 1, ph))
