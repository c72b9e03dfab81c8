"""Process set-up shared by every check: where the code comes from and which seams are taken over.

Seams (all of them outside the repository; nothing in /repo is edited for them):
  * import     the package is imported from $DST_REPO (default /repo), the compiled engine from a build
               of the current tree (dst/build.py), never from the possibly stale installed copy
  * clock      time.time() of the process is a simulated clock that only moves when told to
  * font file  HackGen-Regular.ttf is absent from the tree; opening it is redirected to the other font
               shipped with the package (any other missing file still fails as usual)
  * files      dst/fsim.py can take over open/os functions to inject I/O faults
"""
import builtins, importlib, importlib.util, io, os, sys, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")

_real_io_open = io.open
_real_builtin_open = builtins.open
_state = {"done": False, "ext": None}


class SimClock:
    """The only wall clock the package sees."""

    def __init__(self):
        self.now = 1_700_000_000.0
        self.step = 0.0
        self.reads = 0
        self.plan = None   # optional list of increments consumed one per read

    def time(self):
        self.reads += 1
        if self.plan:
            self.now += self.plan[self.reads % len(self.plan)]
        else:
            self.now += self.step
        return self.now


CLOCK = SimClock()


def _redirect(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return path
    if isinstance(p, bytes):
        return path
    if p.endswith("HackGen-Regular.ttf") and not os.path.exists(p):
        alt = os.path.join(os.path.dirname(p), "Inconsolata.otf")
        if os.path.exists(alt):
            return alt
    return path


# the hook point that dst/fsim.py installs itself into
FS_HOOK = {"open": None}


def _open(file, mode="r", *a, **k):
    file = _redirect(file)
    h = FS_HOOK["open"]
    if h is not None:
        return h(_real_io_open, file, mode, *a, **k)
    return _real_io_open(file, mode, *a, **k)


def preload_ext(path):
    spec = importlib.util.spec_from_file_location("uxsim.uxsim_cpp", path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["uxsim.uxsim_cpp"] = m
    spec.loader.exec_module(m)
    import uxsim
    uxsim.uxsim_cpp = m
    return m


def setup(ext=None):
    """Idempotent. `ext`: path of the compiled engine to use, or None for the Python engine only."""
    if not _state["done"]:
        _state["done"] = True
        sys.dont_write_bytecode = True
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.environ.setdefault("MPLBACKEND", "Agg")
        os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
        os.environ.setdefault("OMP_WAIT_POLICY", "passive")
        for v in ("OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            os.environ.setdefault(v, "1")
        # editable-install finders would redirect the package elsewhere
        sys.meta_path[:] = [f for f in sys.meta_path
                            if "editable" not in type(f).__module__.lower() and "editable" not in type(f).__name__.lower()
                            and "ScikitBuild" not in type(f).__name__]
        for k in [k for k in sys.modules if k == "uxsim" or k.startswith("uxsim.")]:
            del sys.modules[k]
        sys.path[:] = [REPO] + [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath(REPO)]
        io.open = _open
        builtins.open = _open
        import time
        time.time = CLOCK.time
        warnings.simplefilter("ignore")
        import logging
        logging.getLogger("matplotlib.font_manager").setLevel(logging.CRITICAL)
        import uxsim
        got = os.path.dirname(os.path.dirname(os.path.abspath(uxsim.__file__)))
        if os.path.realpath(got) != os.path.realpath(REPO):
            raise RuntimeError("package imported from %s instead of %s" % (got, REPO))
        warnings.simplefilter("ignore")
        import logging as lg
        lg.disable(lg.CRITICAL)
    if ext and _state["ext"] != ext:
        _state["ext"] = ext
        preload_ext(ext)
    import uxsim
    return uxsim
