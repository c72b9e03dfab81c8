"""C25: the result viewer shows the state of the chosen time, after any user interaction."""
import math, os, random, sys, tempfile, warnings
from .. import finger, scen
from ._lock import fail
from ._twin import TwinProp, build, drive, quiet, tsize

TABLES = {"Basic Statistics": "basic_to_pandas", "Link Statistics": "link_to_pandas", "OD Demand Statistics": "od_to_pandas",
          "Vehicle Trip Statistics": "vehicle_trip_to_pandas", "Vehicle Detailed Statistics": "vehicles_to_pandas"}
EXPORTS = {"Export Results to CSV files": ("output_data", {}), "Export Network Animation (link-level)": ("network_anim", dict(detailed=0)),
           "Export Network Animation (link segment-level)": ("network_anim", dict(detailed=1)), "Export Network Animation (vehicle-level)": ("network_fancy", {})}
CONTEXT = {"Time-space diagram of vehicle trajectories": "time_space_diagram_traj", "Time-space diagram of density": "time_space_diagram_density", "Cumulative curve": "cumulative_curves"}


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Signal:
    def __init__(self):
        self.f = []

    def connect(self, f):
        self.f.append(f)

    def emit(self):
        for f in self.f:
            f()


class SimTimer:
    """The timer of the animation; its ticks come when the schedule says so."""
    made = []

    def __init__(self, *a):
        self.timeout, self.active, self.ms = Signal(), False, None
        SimTimer.made.append(self)

    def start(self, ms=None):
        self.active, self.ms = True, ms

    def stop(self):
        self.active = False

    def isActive(self):
        return self.active

    def setInterval(self, ms):
        self.ms = ms


class SimMenu:
    """A context menu in which the schedule chooses."""
    choice = None
    seen = None

    def __init__(self, *a):
        self.items = []

    def addAction(self, text):
        self.items.append(text)
        return ("action", len(self.items) - 1)

    def addSeparator(self):
        pass

    def exec_(self, *a):
        SimMenu.seen = list(self.items)
        if SimMenu.choice in self.items:
            return ("action", len(self.items) - 1 - self.items[::-1].index(SimMenu.choice))
        return None

    exec = exec_


class Event:
    def screenPos(self):
        from PyQt5.QtCore import QPoint
        return QPoint(5, 5)


class Rect:
    def width(self):
        return 10

    def height(self):
        return 10


class Brush:
    """A painter that records what is drawn."""

    def __init__(self):
        self.pen, self.lines, self.texts, self.round = None, [], [], []

    def setPen(self, p):
        self.pen = p

    def setBrush(self, b):
        pass

    def setRenderHint(self, *a):
        pass

    def fontMetrics(self):
        return self

    def boundingRect(self, t):
        return Rect()

    def drawPath(self, p):
        a, b = p.elementAt(0), p.elementAt(p.elementCount() - 1)
        self.line(a.x, a.y, b.x, b.y)

    def drawLine(self, a, b):
        self.line(a.x(), a.y(), b.x(), b.y())

    def line(self, *xy):
        c = self.pen.color()
        self.lines.append((xy, (c.red(), c.green(), c.blue()), self.pen.widthF()))

    def drawText(self, x, y, t):
        self.texts.append(t)

    def drawEllipse(self, *a):
        self.round.append(a)


def app():
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    os.environ.setdefault("XDG_RUNTIME_DIR", tempfile.gettempdir())
    from PyQt5.QtWidgets import QApplication
    a = QApplication.instance()
    if a is None:
        a = QApplication(["viewer"])
        app.keep = a
    return a


class C25(TwinProp):
    id = "C25"
    quick_n, thorough_n = 320, 12000
    case_limit = 120
    cpp_share = 0.15
    rule = ("one evaluation is one seeded scenario run to a seeded moment, opened in the viewer on a display-less toolkit with a simulated timer, and taken through a seeded sequence of user interactions and timer ticks; "
            "what is drawn is compared with the results of the chosen time after each of them; distinct_nontrivial counts distinct digests of histories of displayed states")
    want_probes = ["engine_py", "engine_cpp", "slid", "ticked", "wrapped", "played", "stopped", "highlighted", "highlighted_again", "unknown_vehicle", "cancelled", "dots", "table", "context", "export", "curve", "names", "mid_run", "at_end", "reopened", "drawn_queue", "short_link"]
    real = TwinProp.real + ["uxsim/ResultGUIViewer/ResultGUIViewer.py", "PyQt5 widgets, scenes, signals and actions on the offscreen platform"]
    stub = TwinProp.stub + ["animation timer (simulated)", "context menu and input dialogs (answered by the schedule)", "painter of links and nodes (records)", "plotting and export functions of the analyzer (record the call)"]
    assumptions = ["scenarios with at least one row of traffic states; networks of 2-13 nodes at distinct positions"]
    opts = dict(p_signal=0.2, n_ops=[0, 0, 2, 4], platoons=30)

    def nontrivial(self, ctx):
        return bool(ctx.probes.get("shown"))

    def tweak(self, rng, scn, engine, case):
        n = tsize(scn)
        w = scn["world"]
        w["log_interval"] = 1
        dt = w["deltan"] * w["reaction_time"]
        w["eular_dt"] = max(dt, rng.choice([dt, 3 * dt, 60, 120]))
        if w["eular_dt"] > w["tmax"] / 2:
            w["eular_dt"] = dt
        w["eular_dx"] = rng.choice([20, 50, 100])
        scn["ops"] = [o for o in scn["ops"] if o[0] < n]
        case["at"] = n if rng.random() < 0.6 else rng.randrange(1, n + 1)
        acts = []
        for _ in range(rng.choice([3, 8, 16])):
            z = rng.choice(["slide", "slide", "slide", "play", "stop", "tick", "tick", "tick", "vehicle", "vehicle", "novehicle", "cancel", "table", "context", "export", "curve", "names", "paint", "wheel"])
            acts.append([z, rng.randrange(10 ** 6)])
        case["acts"] = acts
        case["reopen"] = rng.random() < 0.3

    def run(self, case, ctx):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.history(case, ctx)

    def history(self, case, ctx):
        scn, eng = case["scn"], case["engine"]
        A = app()
        from uxsim.ResultGUIViewer import ResultGUIViewer as V
        self.V, self.A, self.ctx = V, A, ctx
        from PyQt5.QtWidgets import QInputDialog
        keep = {k: getattr(V, k) for k in ("QApplication", "QTimer", "QMenu", "QInputDialog", "QMessageBox")}
        hook, out = sys.excepthook, []
        here = os.getcwd()
        me = self

        class Input:
            @staticmethod
            def getText(*a, **k):
                return me.answer

        class Box:
            @staticmethod
            def warning(*a, **k):
                me.warned += 1
        V.QApplication, V.QTimer, V.QMenu, V.QInputDialog, V.QMessageBox = (lambda *a: A), SimTimer, SimMenu, Input, Box
        sys.excepthook = lambda t, e, tb: out.append(e)
        self.out = out
        tmp = tempfile.mkdtemp(prefix="c25")
        os.chdir(tmp)
        try:
            W = build(ctx.ux, scn, eng, case["rng"])
            n = tsize(scn)
            drive(W, scn, upto=case["at"])
            ctx.probe("at_end" if case["at"] == n else "mid_run")
            if not self.fits(W):
                ctx.probe("no_states")
                return
            trace = self.session(W, case, case["acts"], ctx)
            if case["at"] < n or case["reopen"]:
                drive(W, scn, upto=n)
                trace += self.session(W, case, [["paint", 0], ["slide", 1], ["vehicle", 5]], ctx)
                ctx.probe("reopened")
            X = build(ctx.ux, scn, eng, case["rng"])
            drive(X, scn)
            a, b = finger.world(W, eng, tables=("basic_to_pandas", "link_to_pandas")), finger.world(X, eng, tables=("basic_to_pandas", "link_to_pandas"))
            if case["at"] == n:
                d = finger.diff(a, b)
                if d:
                    fail("touched", "viewing changed the results: %s" % d)
            elif W.T == n:
                d = finger.diff(a, b)
                if d:
                    fail("touched", "viewing in the middle of a run changed its outcome: %s" % d)
            self.count(ctx, W, scn, eng, 2)
            h = finger.digest(trace)
            ctx.feed(h)
            ctx.states.add(h)
        finally:
            os.chdir(here)
            try:
                os.rmdir(tmp)
            except OSError:
                pass
            sys.excepthook = hook
            for k, v in keep.items():
                setattr(V, k, v)

    def fits(self, W):
        return int(W.TMAX / W.LINKS[0].edie_dt) >= 1 and len({(n.x, n.y) for n in W.NODES}) == len(W.NODES)

    # -------------------------------------------------------------- one session with the viewer
    def session(self, W, case, acts, ctx):
        V, A = self.V, self.A
        SimTimer.made = []
        self.warned, self.answer = 0, ("", False)
        mode = (W.show_mode, W.save_mode)
        a, win = V.launch_World_viewer(W, return_app_window=True)
        W.show_mode, W.save_mode = mode
        self.calls = []
        stubs = sorted({v for v in CONTEXT.values()} | {v[0] for v in EXPORTS.values()})
        for k in stubs:
            setattr(W.analyzer, k, lambda *x, _k=k, **kw: self.calls.append((_k, x, kw)))
        try:
            self.win, self.W = win, W
            self.gw = win.graph_widget
            self.timer = SimTimer.made[0] if SimTimer.made else None
            self.playing, self.dir, self.names, self.veh, self.t = False, None, True, None, 0
            self.side = {}
            self.rows = int(W.TMAX / W.LINKS[0].edie_dt)
            self.layout()
            trace = [self.shown("at the start")]
            for i, (z, s) in enumerate(acts):
                getattr(self, "do_" + z)(random.Random(s))
                if self.out:
                    raise self.out.pop(0)
                what = "after %s" % [x[0] for x in acts[:i + 1]][-6:]
                trace.append([z, self.shown(what)])
            return trace
        finally:
            for k in stubs:
                W.analyzer.__dict__.pop(k, None)
            for d in win.findChildren(V.DataFrameViewer):
                d.close()
            win.close()
            win.deleteLater()
            A.processEvents()
            self.win = self.gw = self.timer = None
            SimTimer.made = []

    # -------------------------------------------------------------- what is on the screen
    def items(self, kind):
        return [x for x in self.gw.scene().items() if isinstance(x, kind)]

    def layout(self):
        """Nodes are drawn where they are, north up, in one scale; every link between its nodes."""
        V, W = self.V, self.W
        N = {x.name: x for x in self.items(V.NodeItem)}
        if sorted(N) != sorted(n.name for n in W.NODES) or len(self.items(V.NodeItem)) != len(W.NODES):
            fail("layout", "the viewer shows nodes %s of %s" % (sorted(N), sorted(n.name for n in W.NODES)))
        sx = max(n.x for n in W.NODES) - min(n.x for n in W.NODES)
        sy = max(n.y for n in W.NODES) - min(n.y for n in W.NODES)
        k = 760 / max(sx, sy)
        x0, y1 = min(n.x for n in W.NODES), max(n.y for n in W.NODES)
        for n in W.NODES:
            p = N[n.name].pos()
            if not close(p.x(), 20 + (n.x - x0) * k) or not close(p.y(), 20 + (y1 - n.y) * k):
                fail("layout", "node %s at (%s, %s) is shown at (%s, %s)" % (n.name, n.x, n.y, p.x(), p.y()))
        E = {x.name: x for x in self.items(V.EdgeItem)}
        if sorted(E) != sorted(l.name for l in W.LINKS) or len(self.items(V.EdgeItem)) != len(W.LINKS):
            fail("layout", "the viewer shows links %s of %s" % (sorted(E), sorted(l.name for l in W.LINKS)))
        self.N, self.E = N, E

    def shown(self, what):
        """Checks the whole display against the results of the chosen time; returns a summary of it."""
        from matplotlib import colormaps
        V, W, win = self.V, self.W, self.win
        t = win.t_slider.value()
        if t != self.t:
            fail("time", "%s the slider is at %s instead of %s" % (what, t, self.t))
        dt = W.LINKS[0].edie_dt
        if win.t_slider.maximum() != self.rows - 1 or win.t_slider.minimum() != 0:
            fail("time", "the slider spans %s to %s for %s rows" % (win.t_slider.minimum(), win.t_slider.maximum(), self.rows))
        lab = win.t_label.text().split("/")
        if len(lab) != 2 or not close(float(lab[0]), t * dt) or not close(float(lab[1]), self.rows * dt):
            fail("time", "%s the label shows %s at row %s of %s of %s s" % (what, win.t_label.text(), t, self.rows, dt))
        if win.play_button.isEnabled() == self.playing or win.stop_button.isEnabled() != self.playing:
            fail("play", "%s the buttons do not show whether the animation runs (%s)" % (what, self.playing))
        if self.timer is None or self.timer.isActive() != self.playing or (self.playing and not (self.timer.ms or 0) > 0):
            fail("play", "%s the timer does not run as the animation does (%s)" % (what, self.playing))
        sides = set()
        summary = []
        for l in W.LINKS:
            e = self.E[l.name]
            b = Brush()
            e.paint(b, None, None)
            m = l.k_mat.shape[1]
            if m == 0:
                self.ctx.probe("short_link")
                m = 1       # too short for states of its parts: only the link itself
            elif len(b.lines) != m:
                fail("link", "%s link %s is drawn in %d parts instead of %d" % (what, l.name, len(b.lines), m))
            if (l.name in b.texts) != self.names:
                fail("names", "%s the name of link %s is %sshown" % (what, l.name, "" if l.name in b.texts else "not "))
            A, B = self.N[l.start_node.name].pos(), self.N[l.end_node.name].pos()
            x0, y0 = b.lines[0][0][:2]
            x1, y1 = b.lines[-1][0][2:]
            if math.dist((x0, y0), (A.x(), A.y())) > 1e-3 or math.dist((x1, y1), (B.x(), B.y())) > 1e-3:
                fail("link", "%s link %s is drawn from (%s, %s) to (%s, %s) instead of between its nodes" % (what, l.name, x0, y0, x1, y1))
            for i, (xy, rgb, w) in enumerate(b.lines if l.k_mat.shape[1] else []):
                k, v = float(l.k_mat[t, i]), float(l.v_mat[t, i])
                c = [int(z * 255) for z in colormaps["viridis"](v / l.u)[:3]]
                if any(abs(p - q) > 1 for p, q in zip(c, rgb)):
                    fail("link", "%s part %d of link %s is drawn in %s; its speed %s of %s at row %d is %s" % (what, i, l.name, rgb, v, l.u, t, c))
                lw = k * l.delta * l.number_of_lanes * 9.5 + 0.5
                if not close(w, lw):
                    fail("link", "%s part %d of link %s is drawn %s wide; its density %s at row %d gives %s" % (what, i, l.name, w, k, t, lw))
                if i and math.dist(xy[:2], b.lines[i - 1][0][2:]) > 1e-3:
                    fail("link", "%s link %s is drawn with gaps" % (what, l.name))
                if k > 0:
                    self.ctx.probe("drawn_queue")
            if m > 1 and A != B:
                # the side to which the link bends
                q = b.lines[m // 2][0][:2]
                cr = (B.x() - A.x()) * (q[1] - A.y()) - (B.y() - A.y()) * (q[0] - A.x())
                sides.add(cr > 0)
                dev = max(abs((B.x() - A.x()) * (z[0][1] - A.y()) - (B.y() - A.y()) * (z[0][0] - A.x())) for z in b.lines) / math.dist((A.x(), A.y()), (B.x(), B.y())) ** 2
                if not 0.01 < dev < 0.3:
                    fail("curve", "%s link %s bends by %.3f of its length: the two directions of a street cannot be told apart" % (what, l.name, dev))
            summary.append([rgb for _, rgb, _ in b.lines])
        if len(sides) > 1:
            fail("curve", "%s some links bend to one side and some to the other" % what)
        side = sides.pop() if sides else None
        if self.dir and side is not None:
            if side != (self.dir == "Right-handed"):
                fail("curve", "%s links bend to the wrong side for %r" % (what, self.dir))
            if self.side.setdefault(self.dir, side) != side or (len(self.side) == 2 and len(set(self.side.values())) == 1):
                fail("curve", "%s the links bend to the same side in both directions, or the sides changed" % what)
        for n in W.NODES:
            b = Brush()
            self.N[n.name].paint(b, None, None)
            if (n.name in b.texts) != self.names or not b.round:
                fail("names", "%s node %s is shown wrongly (%s, %s)" % (what, n.name, b.texts, b.round))
        # the highlighted vehicle
        want = []
        if self.veh:
            v = W.VEHICLES[self.veh]
            for lt, l, x in zip(v.log_t, v.log_link, v.log_x):
                if l != -1 and l is not None and int(lt / dt) == t:
                    p = self.E[l.name].shape().pointAtPercent(min(max(x / l.length, 0), 1))
                    want.append((p.x(), p.y()))
        dots = [(i.pos().x(), i.pos().y()) for i in self.items(V.VehicleItem) if i.isVisible()]
        free = list(dots)
        for p in want:
            q = min(free, key=lambda z: math.dist(z, p), default=None)
            if q is None or math.dist(q, p) > 1e-3:
                fail("vehicle", "%s vehicle %s at row %s is at %s; shown are %s" % (what, self.veh, t, want, dots))
            free.remove(q)
        if free:
            fail("vehicle", "%s the viewer shows vehicles at %s; vehicle %s at row %s is at %s" % (what, free, self.veh, t, want))
        if want:
            self.ctx.probe("dots")
        self.ctx.probe("shown")
        return [t, lab, len(dots), finger.digest(summary)]

    # -------------------------------------------------------------- interactions
    def action(self, text):
        def walk(menu):
            for a in menu.actions():
                if a.menu():
                    r = walk(a.menu())
                    if r:
                        return r
                elif a.text() == text:
                    return a
        a = walk(self.win.menuBar())
        if a is None:
            fail("menu", "no menu entry %r" % text)
        return a

    def do_slide(self, r):
        self.t = r.choice([0, self.rows - 1, r.randrange(self.rows), r.randrange(self.rows)])
        self.win.t_slider.setValue(self.t)
        self.ctx.probe("slid")

    def do_play(self, r):
        self.win.play_button.click()
        self.playing = True
        self.ctx.probe("played")

    def do_stop(self, r):
        self.win.stop_button.click()
        self.ctx.probe("stopped", int(self.playing))
        self.playing = False

    def do_tick(self, r):
        """Time passes: the timer fires some times, if it runs."""
        for _ in range(r.choice([1, 1, 2, 5, self.rows])):
            if self.timer.isActive():
                self.timer.timeout.emit()
                self.t = (self.t + 1) % self.rows
                self.ctx.probe("ticked")
                if self.t == 0:
                    self.ctx.probe("wrapped")

    def do_vehicle(self, r):
        names = list(self.W.VEHICLES)
        if not names:
            return
        if r.random() < 0.8:
            names = [n for n in names if self.W.VEHICLES[n].state in ("run", "end")] or names
        if self.veh:
            self.ctx.probe("highlighted_again")
        self.veh = str(r.choice(names))
        self.answer = (self.veh, True)
        self.action("Highlight Vehicle by ID").trigger()
        self.ctx.probe("highlighted")

    def do_novehicle(self, r):
        n = self.warned
        self.answer = ("no such vehicle", True)
        self.action("Highlight Vehicle by ID").trigger()
        if self.warned != n + 1 and not self.out:
            fail("vehicle", "no message for an unknown vehicle")
        self.ctx.probe("unknown_vehicle")

    def do_cancel(self, r):
        n = self.warned
        self.answer = (next(iter(self.W.VEHICLES), ""), False) if r.random() < 0.5 else ("", True)
        self.action("Highlight Vehicle by ID").trigger()
        if self.warned != n:
            fail("vehicle", "a message although the dialog was cancelled")
        self.ctx.probe("cancelled")

    def do_table(self, r):
        V = self.V
        text = r.choice(sorted(TABLES))
        if self.W.T < self.W.TSIZE and text != "Vehicle Detailed Statistics":
            text = r.choice(sorted(TABLES))
        want = getattr(self.W.analyzer, TABLES[text])()
        old = set(map(id, self.win.findChildren(V.DataFrameViewer)))
        self.action(text).trigger()
        if self.out:
            return
        new = [d for d in self.win.findChildren(V.DataFrameViewer) if id(d) not in old]
        if len(new) != 1 or not new[0].isVisible():
            fail("table", "%s opens %d windows" % (text, len(new)))
        from PyQt5.QtCore import Qt
        m = new[0].view.model()
        if m.rowCount() != want.shape[0] or m.columnCount() != want.shape[1]:
            fail("table", "%s shows %dx%d of %dx%d cells" % (text, m.rowCount(), m.columnCount(), want.shape[0], want.shape[1]))
        for j in range(want.shape[1]):
            if m.headerData(j, Qt.Horizontal) != str(want.columns[j]):
                fail("table", "%s names column %d %r instead of %r" % (text, j, m.headerData(j, Qt.Horizontal), want.columns[j]))
            for i in range(min(want.shape[0], 12)):
                if m.data(m.index(i, j)) != str(want.iloc[i, j]):
                    fail("table", "%s shows %r in row %d of %s instead of %r" % (text, m.data(m.index(i, j)), i, want.columns[j], want.iloc[i, j]))
        new[0].close()
        new[0].setParent(None)
        self.ctx.probe("table")

    def do_context(self, r):
        l = r.choice(self.W.LINKS)
        SimMenu.choice = r.choice(sorted(CONTEXT) + [None])
        n = len(self.calls)
        self.E[l.name].contextMenuEvent(Event())
        got = self.calls[n:]
        if l.name not in SimMenu.seen or any(x not in SimMenu.seen for x in CONTEXT):
            fail("menu", "the menu of link %s offers %s" % (l.name, SimMenu.seen))
        if SimMenu.choice is None:
            if got:
                fail("menu", "nothing was chosen, but %s was called" % got)
            return
        ok = len(got) == 1 and got[0][0] == CONTEXT[SimMenu.choice]
        if ok:
            x = list(got[0][1]) + list(got[0][2].values())
            z = x[0] if x else None
            ok = z is l or z == l.name or z == [l.name] or z == [l]
        if not ok:
            fail("menu", "choosing %r for link %s called %s" % (SimMenu.choice, l.name, got))
        self.ctx.probe("context")

    def do_export(self, r):
        text = r.choice(sorted(EXPORTS))
        n = len(self.calls)
        self.action(text).trigger()
        got = [(k, kw) for k, x, kw in self.calls[n:]]
        if got != [EXPORTS[text]]:
            fail("menu", "choosing %r called %s" % (text, got))
        self.ctx.probe("export")

    def do_curve(self, r):
        self.dir = r.choice(["Right-handed", "Left-handed"])
        self.action(self.dir).trigger()
        self.ctx.probe("curve")

    def do_names(self, r):
        a = self.action("Show Names")
        a.trigger()
        self.names = not self.names
        if a.isChecked() != self.names:
            fail("names", "the menu entry does not show whether names are shown")
        self.ctx.probe("names")

    def do_paint(self, r):
        self.A.processEvents()
        self.win.grab()

    def do_wheel(self, r):
        class E:
            def angleDelta(s):
                from PyQt5.QtCore import QPoint
                return QPoint(0, r.choice([120, -120]))
        self.gw.wheelEvent(E())


PROP = C25()
