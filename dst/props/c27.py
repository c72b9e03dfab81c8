"""C27: figures, animations and printed rows show the run.

Drawing primitives are the seam: figures are captured before they are closed, the strokes of every picture of an animation are
recorded. What they show is compared with the records of the run (whose agreement with the movements C02, C03, C05 and C13 decide),
at seeded moments of a run and at its end.
"""
import io, math, os, re, shutil, sys, tempfile, warnings
import numpy as np
from .. import reports, scen
from ._lock import fail
from ._twin import TwinProp, build, call, drive, tsize

TOL = 1e-6
OUT = io.StringIO()  # one for all runs of the process: the C++ engine keeps the one with which its first world was made


def near(a, b, tol=TOL):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


class Figures:
    """Captures the figures at the moment they are closed or shown."""

    def __init__(self):
        import matplotlib.pyplot as plt
        self.plt, self.figs = plt, []

    def __enter__(self):
        plt = self.plt
        plt.close("all")
        self.old = plt.close, plt.show
        plt.close = lambda *a, **k: (self.take(), self.old[0]("all"))[1]
        plt.show = lambda *a, **k: (self.take(), self.old[0]("all"))[1]
        return self

    def __exit__(self, *a):
        self.take()
        self.plt.close, self.plt.show = self.old
        self.plt.close("all")

    def take(self):
        for i in self.plt.get_fignums():
            f = self.plt.figure(i)
            self.figs.append([Ax(ax) for ax in f.axes])
        self.old[0]("all")


class Ax:
    def __init__(self, ax):
        from matplotlib.colors import to_rgba
        self.title = ax.get_title()
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.lines = []
        for l in ax.lines:
            self.lines.append(dict(x=list(l.get_xdata(orig=True)), y=list(l.get_ydata(orig=True)), c=to_rgba(l.get_color()), lw=l.get_linewidth(), ls=l.get_linestyle(), mk=l.get_marker(), label=l.get_label()))
        self.images = [dict(z=np.array(m.get_array(), dtype=float), ext=tuple(m.get_extent()), clim=m.get_clim()) for m in ax.images]
        self.texts = [(t.get_position()[0], t.get_position()[1], t.get_text()) for t in ax.texts]
        self.fills = [[np.array(p.vertices) for p in c.get_paths()] for c in ax.collections]

    def solid(self):
        return [l for l in self.lines if l["ls"] == "-" and l["mk"] in (None, "None", "", " ")]

    def dots(self, mk="."):
        return [l for l in self.lines if l["mk"] == mk and l["ls"] in ("None", "", " ")]


class Strokes:
    """Records what is drawn into each picture."""

    def __init__(self):
        import PIL.ImageDraw
        self.mod, self.pics = PIL.ImageDraw, []

    def __enter__(self):
        self.old = self.mod.Draw
        me = self

        def Draw(im, *a, **k):
            rec = dict(size=im.size, line=[], text=[], ellipse=[])
            me.pics.append(rec)
            return Rec(me.old(im, *a, **k), rec)
        self.mod.Draw = Draw
        return self

    def __exit__(self, *a):
        self.mod.Draw = self.old


class Rec:
    """Records a stroke once it was drawn without an error."""

    def __init__(self, d, rec):
        self._d, self._rec = d, rec

    def line(self, xy, fill=None, width=0, joint=None):
        self._d.line(xy, fill=fill, width=width, joint=joint)
        self._rec["line"].append(([tuple(map(float, p)) for p in xy] if len(xy) and hasattr(xy[0], "__len__") else [tuple(map(float, xy[i:i + 2])) for i in range(0, len(xy), 2)], fill, width))

    def text(self, xy, text, *a, **k):
        self._d.text(xy, text, *a, **k)
        self._rec["text"].append((tuple(map(float, xy)), text))

    def ellipse(self, xy, *a, **k):
        self._d.ellipse(xy, *a, **k)
        self._rec["ellipse"].append((tuple(map(float, xy)), k.get("fill")))

    def __getattr__(self, k):
        return getattr(self._d, k)


def polylines(found, want, what):
    """Both are lists of (xs, ys, colour, width or None); compared as multisets within the tolerance."""
    def key(p):
        return (len(p[0]), round(float(p[0][0]), 2) if len(p[0]) else 0, round(float(p[1][0]), 2) if len(p[1]) else 0)
    left = {}
    for p in found:
        left.setdefault(len(p[0]), []).append(p)
    for w in sorted(want, key=key):
        c = left.get(len(w[0]), [])
        for i, p in enumerate(c):
            if all(near(a, b) for a, b in zip(p[0], w[0])) and all(near(a, b) for a, b in zip(p[1], w[1])) and (w[2] is None or any(all(near(a, b, 1e-3) for a, b in zip(p[2][:3], c[:3])) for c in w[2])) and (w[3] is None or near(p[3], w[3])):
                del c[i]
                break
        else:
            same = [p for p in c if near(p[0][0], w[0][0]) and near(p[1][0], w[1][0])]
            fail("line", "%s: the line %s is missing%s" % (what, show(w), "; there is %s" % show(same[0]) if same else ""))
    rest = [p for v in left.values() for p in v]
    if rest:
        fail("line", "%s: there is the line %s, which nothing in the run explains" % (what, show(rest[0])))


def show(p):
    return "(%d points from (%s, %s) to (%s, %s), colour %s, width %s)" % (len(p[0]), *[round(float(x), 4) for x in (p[0][0], p[1][0], p[0][-1], p[1][-1])], [round(float(x), 3) for x in (p[2][0] if isinstance(p[2], list) else p[2])] if p[2] is not None else None, None if p[3] is None else round(float(p[3]), 4))


def cmap(name, x):
    """The acceptable colours: rounding may decide between two neighbouring ones."""
    import matplotlib.pyplot as plt
    return [plt.colormaps[name](float(y)) for y in (x, x - 1e-9, x + 1e-9)]


def delay_colour(ratio, span=1.0):
    z = (ratio - 1) / span
    return cmap("jet", 0.1 if z < 0.1 else 0.9 if z > 0.9 else z)


KINDS = ["traj", "traj", "traj_links", "traj_links", "density", "curves", "curves", "mfd", "network0", "network0", "network1", "network1", "average", "pillow", "pillow", "anim", "fancy", "show", "veh", "vehs"]


class C27(TwinProp):
    id = "C27"
    quick_n, thorough_n = 500, 12000
    case_limit = 240
    cpp_share = 0.3
    opts = dict(p_signal=0.6, n_ops=[0, 0, 3, 6], platoons=15, p_area=0.1)
    rule = ("one evaluation is one seeded scenario run with figures and animations drawn at seeded moments and at its end and with progress rows printed; every line, dot, cell, colour, width and row is compared with the "
            "records of the run; distinct_nontrivial counts distinct final records")
    want_probes = ["traj", "traj_links", "density", "curves", "mfd", "network0", "network1", "average", "pillow", "anim", "fancy", "show", "veh", "vehs", "mid_run", "after_end", "red", "rows", "engine_cpp", "engine_py"]
    real = ["uxsim/analyzer.py", "uxsim/utils.py", "uxsim/uxsim.py", "uxsim/uxsim_cpp_wrapper.py", "uxsim/trafficpp/* (compiled from the current tree)", "matplotlib", "Pillow"]
    stub = ["showing and closing of figures (captured first)", "the drawing functions of Pillow (recorded, then real)", "standard output", "wall clock (simulated)", "the font missing from the tree (another shipped font)"]
    assumptions = ["links of at least three cells in detailed network figures", "networks of some width and height in animations", "animations of vehicles: where each vehicle enters and leaves, not the smoothed way in between"]

    def world_over(self, rng, engine):
        dn = rng.choice([1, 2, 5, 5, 10])
        rt = rng.choice([1, 1, 1, 1.5, 0.5])
        dt = dn * rt
        w = dict(deltan=dn, reaction_time=rt, tmax=round(dt * rng.randint(25, 60) + rng.choice([0, 0, 0.4 * dt]), 6), eular_dt=dt * rng.choice([1, 3, 6, 10]), eular_dx=rng.choice([5, 10, 20, 100]))
        if rt == 1:
            w["tmax"] = int(w["tmax"])
            w["eular_dt"] = int(w["eular_dt"])
        return w

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        case["acts"] = []
        for _ in range(rng.choice([2, 3, 5])):
            at = rng.choice([n, n, n, rng.randint(1, n)])
            case["acts"].append([at, rng.choice(KINDS), rng.randrange(10 ** 6)])
        case["acts"].sort()
        case["rows"] = rng.choice([None, 1, 1, 2, 7])
        case["lane"] = rng.random() < 0.5

    # ------------------------------------------------------------------------------------------------- selections
    def select(self, W, r, single=True):
        """(argument, the links meant) for the several ways to choose links."""
        ls = r.sample(W.LINKS, r.randint(1, min(3, len(W.LINKS))))
        k = r.choice(["none", "names", "objects", "name", "object", "tuple"] if single else ["names", "objects", "tuple"])
        if k == "none":
            return None, list(W.LINKS)
        if k == "name":
            return ls[0].name, ls[:1]
        if k == "object":
            return ls[0], ls[:1]
        if k == "names":
            return [l.name for l in ls], ls
        if k == "tuple":
            return tuple(l.name for l in ls), ls
        return ls, ls

    def red_times(self, W, l):
        nd = l.end_node
        if len(nd.signal) < 2:
            return []
        return [i * W.DELTAT for i, p in enumerate(nd.signal_log) if p not in l.signal_group]

    def reds(self, ax, W, links, off, what, ctx):
        got = [(x, y) for l in ax.dots() if l["c"][:3] == (1.0, 0.0, 0.0) for x, y in zip(l["x"], l["y"])]
        want = [(t, l.length + off[l]) for l in links for t in self.red_times(W, l)]
        if want:
            ctx.probe("red")
        if len(got) != len(want) or any(not near(a[0], b[0]) or not near(a[1], b[1]) for a, b in zip(sorted(got), sorted(want))):
            fail("red", "%s: red light is shown at %s..., the signal was red at %s..." % (what, sorted(got)[:4], sorted(want)[:4]))

    def axes(self, figs, n, what, k=1):
        if len(figs) != n:
            fail("missing", "%s: %d figures were drawn instead of %d" % (what, len(figs), n))
        for f in figs:
            if len(f) < k:
                fail("missing", "%s: a figure has %d diagrams" % (what, len(f)))
        return figs

    # ------------------------------------------------------------------------------------------------- the drawings
    def act(self, W, case, kind, seed, ctx, at, end):
        import random
        r = random.Random(seed)
        what = "%s %s" % (kind, "at the end" if end else "before step %d" % at)
        A = W.analyzer
        with warnings.catch_warnings(record=True) as ws, Figures() as F, Strokes() as S:
            warnings.simplefilter("always")
            check = getattr(self, "k_" + kind)(W, A, r, F, S)
        if check is None:
            return
        bad = [str(w.message) for w in ws if "Glyph" not in str(w.message) and ("exception" in str(w.message).lower() or "error" in str(w.message).lower())]
        if bad:
            if not end:
                return
            fail("failed", "%s could not be drawn: %s" % (what, bad[0][:300]))
        check(what, ctx)
        ctx.probe(kind)
        ctx.probe("after_end" if end else "mid_run")

    def traj(self, W, figs, groups, what, ctx, xlim=None):
        self.axes(figs, len(groups), what)
        for f, links in zip(figs, groups):
            ax = f[0]
            off, d = {}, 0
            for l in links:
                off[l] = d
                d += l.length
            names = {l.name for l in links}
            want = []
            eps = W.DELTAT * 0.01
            for v in W.VEHICLES.values():
                for l, ts, xs, vs, lanes in reports.passages(W, v):
                    if l.name not in names:
                        continue
                    ts, xs = list(ts), list(xs)
                    if xs[0] != 0 and xs[0] / l.u > eps:
                        ts.insert(0, ts[0] - xs[0] / l.u)
                        xs.insert(0, 0)
                    if l.length - l.u * W.DELTAT <= xs[-1] < l.length and (l.length - xs[-1]) / l.u > eps:
                        ts.append(ts[-1] + (l.length - xs[-1]) / l.u)
                        xs.append(l.length)
                    s = lanes[0] / l.number_of_lanes * W.DELTAT / 2
                    o = [q for q in off if q.name == l.name][0]
                    want.append(([t + s for t in ts], [x + off[o] for x in xs], v.color, None))
            from matplotlib.colors import to_rgba
            want = [(a, b, [to_rgba(c)], w) for a, b, c, w in want]
            polylines([(l["x"], l["y"], l["c"], None) for l in ax.solid()], want, what)
            self.reds(ax, W, links, off, what, ctx) if self.signals else None
            for l in links:
                if not any(t[2] == l.name and near(t[1], off[l] + l.length / 2) for t in ax.texts):
                    fail("label", "%s: link %s is not named at its place" % (what, l.name))
            if xlim is None and (not near(ax.xlim[0], 0) or not near(ax.xlim[1], W.TMAX)):
                fail("axis", "%s: the time axis goes from %s to %s" % (what, *ax.xlim))

    def k_traj(self, W, A, r, F, S):
        arg, links = self.select(W, r)
        if any(len(v.log_t) != 0 for v in W.VEHICLES.values()) and len(links) > 6:
            arg, links = [l.name for l in links[:4]], links[:4]
        self.signals = r.random() < 0.8
        A.time_space_diagram_traj(arg, plot_signal=self.signals)
        return lambda what, ctx: self.traj(W, F.figs, [[l] for l in links], what, ctx)

    def k_traj_links(self, W, A, r, F, S):
        groups = []
        for _ in range(r.choice([1, 1, 2])):
            lit = r.random() < 0.6  # along signals, if there are any
            pick = lambda c: r.choice([x for x in c if lit and len(x.end_node.signal) > 1] or list(c))
            g = [pick(W.LINKS)]
            while len(g) < 4:
                nx = [x for x in g[-1].end_node.outlinks.values() if x not in g]
                if not nx or r.random() < 0.1:
                    break
                g.append(pick(nx))
            groups.append(g)
        self.signals = r.random() < 0.8
        f = r.choice([lambda l: l, lambda l: l.name])
        arg = [[f(l) for l in g] for g in groups]
        if len(groups) == 1 and r.random() < 0.5:
            arg = arg[0]
        A.time_space_diagram_traj_links(arg, plot_signal=self.signals)
        return lambda what, ctx: self.traj(W, F.figs, groups, what, ctx)

    def k_density(self, W, A, r, F, S):
        arg, links = self.select(W, r)
        if len(links) > 4:
            arg, links = links[:4], links[:4]
        A.time_space_diagram_density(arg)

        def check(what, ctx):
            self.axes(F.figs, len(links), what)
            E = reports.edie(W)
            for f, l in zip(F.figs, links):
                if len(f[0].images) != 1:
                    fail("missing", "%s: no density is shown" % what)
                m = f[0].images[0]
                tn, dn, bad = E[l.name]
                nt, nx = int(W.TMAX / l.edie_dt), int(l.length / l.edie_dx)
                if m["z"].shape != (nx, nt) and nx and nt:
                    fail("density", "%s: %s cells are shown instead of %s" % (what, m["z"].shape, (nx, nt)))
                for i in range(nt):
                    for j in range(nx):
                        if (i, j) in bad or (i, None) in bad:
                            continue
                        if not near(m["z"][j][i], tn[i][j] * W.DELTAN / l.edie_dt / l.edie_dx, 1e-5):
                            fail("density", "%s: link %s shows density %s in cell (%d, %d), the trajectories give %s" % (what, l.name, m["z"][j][i], i, j, tn[i][j] * W.DELTAN / l.edie_dt / l.edie_dx))
                if any(not near(a, b) for a, b in zip(m["ext"], (0, nt * l.edie_dt, 0, nx * l.edie_dx))):
                    fail("density", "%s: the cells of link %s are shown over %s" % (what, l.name, m["ext"]))
                if not near(m["clim"][0], 0) or not near(m["clim"][1], l.kappa):
                    fail("density", "%s: the scale of link %s goes from %s to %s" % (what, l.name, *m["clim"]))
                self.reds(f[0], W, [l], {l: 0}, what, ctx)
        return check

    def k_curves(self, W, A, r, F, S):
        arg, links = self.select(W, r)
        if len(links) > 4:
            arg, links = links[:4], links[:4]
        A.cumulative_curves(arg)
        n = min(W.T, tsize(self.scn))

        def check(what, ctx):
            self.axes(F.figs, len(links), what, 2)
            for f, l in zip(F.figs, links):
                for lab, ys in (("arrival", l.cum_arrival), ("departure", l.cum_departure), ("instantaneous", l.traveltime_instant), ("actual", l.traveltime_actual)):
                    q = [x for ax in f for x in ax.lines if x["label"] == lab]
                    if len(q) != 1:
                        fail("missing", "%s: link %s has %d curves of kind %s" % (what, l.name, len(q), lab))
                    q = q[0]
                    if len(q["x"]) < n:
                        fail("curve", "%s: the %s curve of link %s has %d points after %d steps" % (what, lab, l.name, len(q["x"]), n))
                    for i in range(n):
                        if not near(q["x"][i], i * W.DELTAT) or not near(q["y"][i], ys[i]):
                            fail("curve", "%s: the %s curve of link %s shows (%s, %s), recorded was (%s, %s)" % (what, lab, l.name, q["x"][i], q["y"][i], i * W.DELTAT, ys[i]))
        return check

    def k_mfd(self, W, A, r, F, S):
        arg, links = self.select(W, r)
        A.macroscopic_fundamental_diagram(links=arg)

        def check(what, ctx):
            self.axes(F.figs, 1, what)
            E = reports.edie(W)
            q = [l for l in F.figs[0][0].lines if l["mk"] == "o"]
            if len(q) != 1:
                fail("missing", "%s: no diagram" % what)
            q = q[0]
            names = {l.name for l in links}
            area = sum(l.length for l in links) * W.EULAR_DT
            for i in range(min(len(q["x"]), *[len(E[x][0]) for x in names])):
                if any(b[0] == i for x in names for b in E[x][2]):
                    continue
                k = sum(sum(E[x][0][i]) for x in names) * W.DELTAN / area
                f = sum(sum(E[x][1][i]) for x in names) * W.DELTAN / area
                if not near(q["x"][i], k, 1e-5) or not near(q["y"][i], f, 1e-5):
                    fail("mfd", "%s of %s: interval %d is shown at (%s, %s), the trajectories give (%s, %s)" % (what, sorted(names), i, q["x"][i], q["y"][i], k, f))
            if len(q["x"]) < int(W.TMAX / W.EULAR_DT):
                fail("mfd", "%s: %d intervals are shown" % (what, len(q["x"])))
        return check

    # ---- networks
    def geometry(self, l, left):
        x1, y1, x2, y2 = l.start_node.x, l.start_node.y, l.end_node.x, l.end_node.y
        vx, vy = (y1 - y2) * 0.05, (x2 - x1) * 0.05
        if not left:
            vx, vy = -vx, -vy
        return [x1, (2 * x1 + x2) / 3 + vx, (x1 + 2 * x2) / 3 + vx, x2], [y1, (2 * y1 + y2) / 3 + vy, (y1 + 2 * y2) / 3 + vy, y2]

    def state(self, W, l, t):
        i = int(t / W.DELTAT)
        k = (l.cum_arrival[i] - l.cum_departure[i]) / l.length
        v = l.length / l.traveltime_instant[i]
        return k, v

    def nodes(self, W, ax, what):
        got = [(l["x"][0], l["y"][0]) for l in ax.lines if l["mk"] == "o" and len(l["x"]) == 1]
        want = [(n.x, n.y) for n in W.NODES]
        if len(got) != len(want) or any(not near(a[0], b[0]) or not near(a[1], b[1]) for a, b in zip(sorted(got), sorted(want))):
            fail("node", "%s: nodes are shown at %s instead of %s" % (what, sorted(got)[:5], sorted(want)[:5]))

    def k_network0(self, W, A, r, F, S):
        if W.T < 1:
            return None
        t = r.choice([0, (W.T - 1) * W.DELTAT, r.randrange(W.T) * W.DELTAT])
        if r.random() < 0.3:
            t = t + 0.3 * W.DELTAT
        mode = r.choice(["density_speed", "flow_delay"])
        left = r.choice([0, 1])
        mn, mx = r.choice([(0.5, 12), (1, 5)])
        A.network(t, detailed=0, state_variables=mode, left_handed=left, minwidth=mn, maxwidth=mx, network_font_size=r.choice([0, 12]))

        def check(what, ctx):
            self.axes(F.figs, 1, what)
            ax = F.figs[0][0]
            if ("%s" % t) not in ax.title:
                fail("title", "%s: the figure of time %s is entitled %r" % (what, t, ax.title))
            want = []
            for l in W.LINKS:
                k, v = self.state(W, l, t)
                x, y = self.geometry(l, left)
                if mode == "density_speed":
                    want.append((x, y, cmap("viridis", v / l.u), k * l.delta * (mx * l.number_of_lanes - mn) + mn))
                else:
                    want.append((x, y, delay_colour(l.u / v), k * v / l.capacity * (mx * l.number_of_lanes - mn) + mn))
            polylines([(l["x"], l["y"], l["c"], l["lw"]) for l in ax.solid()], want, "%s of time %s in mode %s" % (what, t, mode))
            self.nodes(W, ax, what)
        return check

    def k_network1(self, W, A, r, F, S):
        if W.T < 1 or any(int(l.length / l.edie_dx) < 3 for l in W.LINKS):
            return None
        t = r.randrange(W.T) * W.DELTAT
        if any(int(t / l.edie_dt) >= int(W.TMAX / l.edie_dt) for l in W.LINKS):
            return None
        mode = r.choice(["density_speed", "flow_delay"])
        left = r.choice([0, 1])
        mn, mx = 0.5, 12
        A.network(t, detailed=1, state_variables=mode, left_handed=left, network_font_size=0)
        df = {(a, round(b, 6), round(c, 6)): (q, k, v) for a, b, c, q, k, v in A.link_traffic_state_to_pandas()[["link", "t", "x", "q", "k", "v"]].itertuples(index=False)}

        def check(what, ctx):
            self.axes(F.figs, 1, what)
            ax = F.figs[0][0]
            want = []
            for l in W.LINKS:
                n = int(l.length / l.edie_dx)
                x, y = self.geometry(l, left)
                x1, y1, x2, y2 = x[0], y[0], x[3], y[3]
                vx, vy = ((y1 - y2) * 0.05, (x2 - x1) * 0.05) if left else (-(y1 - y2) * 0.05, -(x2 - x1) * 0.05)
                for j in range(1, n - 1):
                    q, k, v = df[l.name, round(int(t / l.edie_dt) * l.edie_dt, 6), round(j * l.edie_dx, 6)]
                    xs = [x1 + (x2 - x1) * z / n + vx for z in (j, j + 1)]
                    ys = [y1 + (y2 - y1) * z / n + vy for z in (j, j + 1)]
                    if mode == "density_speed":
                        want.append((xs, ys, cmap("viridis", v / l.u), k * l.delta * (mx * l.number_of_lanes - mn) + mn))
                    else:
                        want.append((xs, ys, delay_colour(l.u / v if v > 0 else 1e9, 2.0), q / l.capacity * (mx * l.number_of_lanes - mn) + mn))
            polylines([(l["x"], l["y"], l["c"], l["lw"]) for l in ax.solid()], want, "%s of time %s in mode %s" % (what, t, mode))
            self.nodes(W, ax, what)
        return check

    def k_average(self, W, A, r, F, S):
        if W.T < 1:
            return None
        df = reports.links(W)
        if not any(d["traffic_volume"] for d in df.values()):
            return None
        left = r.choice([0, 1])
        A.network_average(left_handed=left, network_font_size=0)

        def check(what, ctx):
            self.axes(F.figs, 1, what)
            ax = F.figs[0][0]
            top = max(d["traffic_volume"] for d in df.values())
            want = []
            for l in W.LINKS:
                d = df[l.name]
                x, y = self.geometry(l, left)
                want.append((x, y, delay_colour(d["average_travel_time"] / d["free_travel_time"]), d["traffic_volume"] / top * 12 + 0.5))
            polylines([(l["x"], l["y"], l["c"], l["lw"]) for l in ax.solid()], want, what)
            self.nodes(W, ax, what)
        return check

    def k_show(self, W, A, r, F, S):
        left, ids = r.choice([0, 1]), r.random() < 0.5
        W.show_network(left_handed=left, show_id=ids, width=2)

        def check(what, ctx):
            self.axes(F.figs, 1, what)
            ax = F.figs[0][0]
            polylines([(l["x"], l["y"], None, None) for l in ax.solid()], [(*self.geometry(l, left), None, None) for l in W.LINKS], what)
            self.nodes(W, ax, what)
            for n in W.NODES:
                if not any(near(t[0], n.x) and near(t[1], n.y) and t[2] == ("%d: %s" % (n.id, n.name) if ids else n.name) for t in ax.texts):
                    fail("label", "%s: node %s is not named at its place" % (what, n.name))
            for l in W.LINKS:
                if not any(t[2] == ("%d: %s" % (l.id, l.name) if ids else l.name) for t in ax.texts):
                    fail("label", "%s: link %s is not named" % (what, l.name))
        return check

    def flat(self, W):
        xs, ys = [n.x for n in W.NODES], [n.y for n in W.NODES]
        dx, dy = max(xs) - min(xs), max(ys) - min(ys)
        return not dx or dy / dx > 4 or dy / dx < 0.05

    def frame(self, W, p, t, mode, left, legend, what):
        """One picture of the network at time t. Positions are judged up to shift and scale, found from the drawn links."""
        if not any(("%s" % int(t)) in x[1] and "t =" in x[1] for x in p["text"]):
            fail("title", "%s: the picture of time %s says %s" % (what, t, [x[1] for x in p["text"] if "t =" in x[1]]))
        lines = [q for q in p["line"] if len(q[0]) == 4 and q[1] != "black"]
        if len(lines) != len(W.LINKS):
            fail("missing", "%s: %d links are shown instead of %d" % (what, len(lines), len(W.LINKS)))
        X = [x for q in lines for x in (q[0][0][0], q[0][3][0])]
        xs = [x for l in W.LINKS for x in (l.start_node.x, l.end_node.x)]
        i, j = xs.index(min(xs)), xs.index(max(xs))
        if xs[i] == xs[j]:
            return
        a = (X[j] - X[i]) / (xs[j] - xs[i])
        bx = X[i] - a * xs[i]
        by = lines[0][0][0][1] + a * W.LINKS[0].start_node.y
        s = 2
        mn, mx = 0.5 * s, 12 * s
        for l, (pts, c, w) in zip(W.LINKS, lines):
            gx, gy = self.geometry(l, left)
            if a <= 0 or any(abs(P[0] - (a * x + bx)) > 0.6 or abs(P[1] - (by - a * y)) > 0.6 for P, x, y in zip(pts, gx, gy)):
                fail("place", "%s: link %s is drawn over %s" % (what, l.name, pts))
            k, v = self.state(W, l, t)
            if mode == "density_speed":
                col, wd = cmap("viridis", v / l.u), k * l.delta * (mx - mn) + mn
            elif mode == "density_flow":
                col, wd = cmap("magma", min(1.0, max(0.0, k * v / l.capacity))), k * l.delta * (mx - mn) + mn
            else:
                col, wd = delay_colour(l.u / v), k * v / l.capacity * (mx - mn) + mn
            if not isinstance(c, tuple) or not any(all(abs(a1 - b1 * 255) <= 1.01 for a1, b1 in zip(c, k[:3])) for k in col):
                fail("colour", "%s: at %s link %s has colour %s instead of %s (mode %s)" % (what, t, l.name, c, [int(x * 255) for x in col[0][:3]], mode))
            if w not in (int(wd - 1e-6), int(wd + 1e-6)):
                fail("width", "%s: at %s link %s has width %s instead of %s (mode %s)" % (what, t, l.name, w, int(wd), mode))

    def k_pillow(self, W, A, r, F, S):
        if W.T < 1 or self.flat(W):
            return None
        t = r.choice([0, (W.T - 1) * W.DELTAT, r.randrange(W.T) * W.DELTAT])
        mode = r.choice(["density_speed", "flow_delay", "density_flow"])
        left, legend = r.choice([0, 1]), r.random() < 0.5
        A.network_pillow(t, detailed=0, state_variables=mode, left_handed=left, figsize=r.choice([2, (2, 3)]), network_font_size=0, legend=legend, image_return=1)

        def check(what, ctx):
            if len(S.pics) != 1:
                fail("missing", "%s: %d pictures" % (what, len(S.pics)))
            self.frame(W, S.pics[0], t, mode, left, legend, what)
        return check

    def k_anim(self, W, A, r, F, S):
        n = tsize(self.scn)
        if W.T < n or self.flat(W):
            return None
        mode = r.choice(["density_speed", "flow_delay"])
        skip = r.choice([5, 12, 24])
        left = r.choice([0, 1])
        A.network_anim(detailed=0, state_variables=mode, left_handed=left, figsize=2, network_font_size=0, timestep_skip=skip, legend=False, file_name="anim.gif")

        def check(what, ctx):
            ts = [int(i * W.DELTAT) for i in range(0, n, skip)]
            least = [t for t in ts if int(t / W.LINKS[0].edie_dt) < int(W.TMAX / W.LINKS[0].edie_dt)]  # an incomplete last interval may be left out
            if not len(least) <= len(S.pics) <= len(ts):
                fail("missing", "%s: %d pictures instead of %d" % (what, len(S.pics), len(ts)))
            for p, t in zip(S.pics, ts):
                self.frame(W, p, t, mode, left, False, what)
            if not os.path.exists("anim.gif"):
                fail("missing", "%s: no file" % what)
        return check

    def k_fancy(self, W, A, r, F, S):
        n = tsize(self.scn)
        if W.T < n or self.flat(W) or W.vehicle_logging_timestep_interval != 1:
            return None
        iv = r.choice([3, 5])
        A.network_fancy(figsize=2, sample_ratio=1, interval=iv, speed_coef=1, file_name="fancy.gif", antialiasing=False)

        def check(what, ctx):
            want = {}
            for v in W.VEHICLES.values():
                idx = [i for i in range(0, len(v.log_t), iv) if v.log_state[i] == "run"]
                if len(idx) > iv:
                    p = []
                    for i in (idx[0], idx[-1]):
                        l, z = v.log_link[i], v.log_x[i] / v.log_link[i].length
                        p.append((l.start_node.x * (1 - z) + l.end_node.x * z, l.start_node.y * (1 - z) + l.end_node.y * z))
                    want.setdefault(int(v.log_t[idx[0]]), []).append(("enters", v, p[0]))
                    want.setdefault(int(v.log_t[idx[0]] + (len(idx) * iv - 1) * W.DELTAT), []).append(("is last seen", v, p[1]))
            if len(S.pics) != n:
                fail("missing", "%s: %d pictures of %d steps" % (what, len(S.pics), n))
            xs = [x.x for x in W.NODES]
            dc = (max(xs) - min(xs)) / 20
            pic0 = S.pics[0]
            lk = [q for q in pic0["line"]][:len(W.LINKS)]
            X = [x for q in lk for x in (q[0][0][0], q[0][1][0])]
            ls = [x for l in W.LINKS for x in (l.start_node.x, l.end_node.x)]
            i, j = ls.index(min(ls)), ls.index(max(ls))
            a = (X[j] - X[i]) / (ls[j] - ls[i])
            bx = X[i] - a * ls[i]
            by = lk[0][0][0][1] + a * W.LINKS[0].start_node.y
            for i, p in enumerate(S.pics):
                t = int(i * W.DELTAT)
                if not any(("%s" % t) in x[1] and "t =" in x[1] for x in p["text"]):
                    fail("title", "%s: the picture of time %s says %s" % (what, t, [x[1] for x in p["text"]]))
                for kind, v, (x, y) in want.get(t, []):
                    col = tuple(int(z * 255) for z in v.color[:3])
                    ok = False
                    for e, c in p["ellipse"]:
                        cx, cy = (e[0] + e[2]) / 2, (e[1] + e[3]) / 2
                        if c is not None and all(abs(q - z) <= 1 for q, z in zip(c, col)) and abs(cx - (a * x + bx)) <= a * dc / 2 + 1 and abs(cy - (by - a * y)) <= a * dc / 2 + 1:
                            ok = True
                            break
                    if not ok:
                        fail("vehicle", "%s: at %s vehicle %s %s at (%s, %s), and is not shown there" % (what, t, v.name, kind, x, y))
        return check

    def k_veh(self, W, A, r, F, S):
        vs = [v for v in W.VEHICLES.values() if len(v.log_t)]
        if not vs:
            return None
        v = r.choice(vs)
        A.plot_vehicle_log(v.name)

        def check(what, ctx):
            self.axes(F.figs, 1, what, 2)
            f = F.figs[0]
            want = [(t, l.name if hasattr(l, "name") else "not in network") for t, l, s in zip(v.log_t, v.log_link, v.log_state) if s != "home"]
            q = [l for ax in f for l in ax.lines if len(l["x"]) == len(want)]
            if want and not any(all(near(a, t) and b == n for a, b, (t, n) in zip(l["x"], l["y"], want)) for l in q):
                fail("vehicle", "%s: the links of vehicle %s are not those it travelled" % (what, v.name))
            pts = {(round(float(a), 4), round(float(b), 4)) for ax in f for c in ax.fills for p in c for a, b in p}
            for t, s in zip(v.log_t, v.log_v):
                if (round(float(t), 4), round(float(s), 4)) not in pts:
                    fail("vehicle", "%s: vehicle %s had speed %s at %s, which is not shown" % (what, v.name, s, t))
            if not any(v.name in ax.title for ax in f):
                fail("title", "%s: the figure of vehicle %s does not name it" % (what, v.name))
        return check

    def k_vehs(self, W, A, r, F, S):
        from matplotlib.colors import to_rgba
        vs = [v for v in W.VEHICLES.values() if len(v.log_t)]
        if not vs:
            return None
        vs = r.sample(vs, min(len(vs), r.choice([1, 2, 3])))
        A.plot_vehicles_log([v.name for v in vs])

        def check(what, ctx):
            self.axes(F.figs, 1, what)
            ax = F.figs[0][0]
            for v in vs:
                want = [(t, l.name if hasattr(l, "name") else "not in network") for t, l, s in zip(v.log_t, v.log_link, v.log_state) if s != "home"]
                q = [l for l in ax.lines if l["label"] == v.name]
                if len(q) != 1 or len(q[0]["x"]) != len(want) or any(not near(a, t) or b != n for a, b, (t, n) in zip(q[0]["x"], q[0]["y"], want)):
                    fail("vehicle", "%s: the links of vehicle %s are not those it travelled" % (what, v.name))
                if any(not near(a, b) for a, b in zip(q[0]["c"], to_rgba(v.color))):
                    fail("vehicle", "%s: vehicle %s has colour %s" % (what, v.name, q[0]["c"]))
        return check

    # ------------------------------------------------------------------------------------------------- printed rows
    ROW = re.compile(r"^\s*(-?[0-9.]+) s\|\s*(-?[0-9.]+) vehs\|\s*(-?[0-9.naninf]+) m/s\|\s*([0-9.]+) s\s*$")

    def rows(self, W, text, t, n, every, ctx):
        """The rows printed while step t was executed, and the state after it."""
        got = [m.groups() for m in map(self.ROW.match, text.splitlines()) if m]
        vs = [v for l in W.LINKS for v in self.on(W, l)]
        now = (len(vs) * W.DELTAN, sum(v.v for v in vs) / len(vs) if vs else 0)
        want = []
        if t == 0:
            want.append((0, 0, 0))
        if t > 0 and t % every == 0:
            want.append((t * W.DELTAT, *now))
        if t == n - 1:
            want.append((n * W.DELTAT, *now))
        if len(got) != len(want):
            fail("row", "%d progress rows were printed in step %d of %d with a row every %d steps, %d are due" % (len(got), t, n, every, len(want)))
        for g, w in zip(got, want):
            if any(abs(float(a) - b) > e for a, b, e in zip(g, w, (0.51, 0.51, 0.051))):
                fail("row", "the row printed in step %d says time %s, %s vehicles, speed %s; it should be %s, %s, %s" % (t, *g[:3], *w))
        if want:
            ctx.probe("rows", len(want))

    def on(self, W, l):
        return [v for v in W.VEHICLES.values() if v.state == "run" and v.link is not None and v.link.name == l.name]

    # ------------------------------------------------------------------------------------------------- a run
    def run(self, case, ctx):
        scn, engine = case["scn"], case["engine"]
        self.scn = scn
        n = tsize(scn)
        d = tempfile.mkdtemp(prefix="dst27_")
        cwd = os.getcwd()
        os.chdir(d)
        so, se = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.out = OUT
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.all(case, ctx, scn, engine, n)
        finally:
            sys.stdout, sys.stderr = so, se
            OUT.seek(0)
            OUT.truncate()
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def all(self, case, ctx, scn, engine, n):
        every = case["rows"]
        over = {}
        if every:
            over = dict(print_mode=1, show_progress=1, show_progress_deltat=(every + 0.5) * scn["world"]["deltan"] * scn["world"]["reaction_time"])
        W = build(ctx.ux, scn, engine, case["rng"], **over)
        acts = list(case["acts"])

        def due(t):
            while acts and acts[0][0] <= t:
                at, kind, seed = acts.pop(0)
                self.act(W, case, kind, seed, ctx, t, t >= n)
        if every:
            # one step at a time, so that the rows of each step can be compared with the state after it
            ops, i = scn["ops"], 0
            for t in range(n):
                while i < len(ops) and ops[i][0] <= t:
                    scen.apply_op(W, ops[i])
                    i += 1
                due(t) if t else None
                p = self.out.seek(0, 2)
                call(W, "dur2", 1, 0, n)
                self.out.seek(p)
                self.rows(W, self.out.read(), t, n, every, ctx)
        else:
            for at in sorted({a[0] for a in acts}):
                drive(W, scn, upto=at)
                due(at)
            drive(W, scn)
        due(n)
        from .. import finger
        self.count(ctx, W, scn, engine, 1)
        self.record(ctx, finger.world(W, engine))


PROP = C27()
