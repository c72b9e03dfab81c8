"""Builds the compiled engine from the *current* tree of the repository, outside of it.

Two variants:
  plain    the extension as shipped (real libgomp), used for the engine-level properties
  simthr   every memory access of the engine instrumented (-fsanitize=thread code generation) and
           linked against our own OpenMP runtime and scheduler (simomp/), so that the simulator
           decides which of the engine's threads runs at every access and synchronisation point
Outputs are cached below <verif>/.build, keyed by a hash of all inputs.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _hash(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.basename(f).encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _nb_root():
    for p in sys.path + [sysconfig.get_paths()["purelib"], "/opt/venv/lib/python3.12/site-packages"]:
        c = os.path.join(p, "nanobind")
        if os.path.isdir(os.path.join(c, "src")):
            return c
    raise BuildError("nanobind sources not found")


def build(variant="plain", out_root=None):
    """Returns the path of the extension module; builds when the cache has no match."""
    out_root = out_root or os.environ.get("DST_BUILD") or os.path.join(VERIF, ".build")
    os.makedirs(out_root, exist_ok=True)
    src = os.path.join(REPO, "uxsim", "trafficpp")
    nb = _nb_root()
    pyinc = "/usr/include/python3.12" if os.path.isdir("/usr/include/python3.12") else sysconfig.get_paths()["include"]
    inc = ["-I" + pyinc, "-I" + nb + "/include", "-isystem", nb + "/ext/robin_map/include"]
    base = ["-std=gnu++17", "-fPIC", "-fvisibility=hidden", "-fno-strict-aliasing", "-DNDEBUG"]
    engine_src = [f for f in glob.glob(src + "/*") if f.endswith((".cpp", ".h", ".hpp"))]
    sim_src = sorted(glob.glob(os.path.join(VERIF, "simomp", "*")))
    if variant == "plain":
        flags = ["-O1", "-fopenmp"]
    elif variant == "simthr":
        flags = ["-O1", "-fopenmp", "-fsanitize=thread", "-g1"]
    else:
        raise ValueError(variant)
    key = _hash(engine_src + (sim_src if variant == "simthr" else []), (variant, flags, base, nb))
    suffix = ".cpython-312-x86_64-linux-gnu.so"
    dst = os.path.join(out_root, "%s-%s" % (variant, key))
    target = os.path.join(dst, "uxsim_cpp" + suffix)
    with open(os.path.join(out_root, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(target):
            return target
        tmp = tempfile.mkdtemp(prefix="bld", dir=out_root)
        try:
            procs = []

            def spawn(cmd):
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            nbo = os.path.join(tmp, "nb.o")
            spawn(["g++", "-O1", *base, "-DNB_BUILD", "-DNB_COMPACT_ASSERTIONS", *inc, "-c", nb + "/src/nb_combined.cpp", "-o", nbo])
            eng = os.path.join(tmp, "engine.o")
            spawn(["g++", *flags, *base, "-DNB_COMPACT_ASSERTIONS", "-I" + src, *inc, "-c", src + "/bindings.cpp", "-o", eng])
            objs = [eng, nbo]
            # other translation units, should the engine ever be split
            for f in sorted(glob.glob(src + "/*.cpp")):
                b = os.path.basename(f)
                if b in ("bindings.cpp",):
                    continue
                # textually included by bindings.cpp?
                inc_by = any(('"%s"' % b) in open(g, errors="replace").read() for g in engine_src if g != f)
                if not inc_by:
                    o = os.path.join(tmp, b + ".o")
                    spawn(["g++", *flags, *base, "-I" + src, *inc, "-c", f, "-o", o])
                    objs.append(o)
            if variant == "simthr":
                for f in sim_src:
                    if f.endswith(".cpp"):
                        o = os.path.join(tmp, os.path.basename(f) + ".o")
                        spawn(["g++", "-O2", "-g1", *base, "-pthread", "-c", f, "-o", o])
                        objs.append(o)
            for cmd, pr in procs:
                out, _ = pr.communicate()
                if pr.returncode != 0:
                    raise BuildError("command failed: %s\n%s" % (" ".join(cmd), out[-4000:]))
            so = os.path.join(tmp, "uxsim_cpp" + suffix)
            if variant == "simthr":
                # allocation, block copies and locks of the engine go through the simulator
                ren = []
                for x in ("malloc", "free", "calloc", "realloc", "memcpy", "memmove", "memset",
                          "_Znwm", "_ZdlPv", "_ZdlPvm", "_Znam", "_ZdaPv", "_ZdaPvm",
                          "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
                          "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"):
                    ren += ["--redefine-sym", "%s=sim_%s" % (x, x)]
                for o in objs:
                    if not os.path.basename(o).startswith("simomp"):
                        _run(["objcopy"] + ren + [o])
            link = ["g++", "-shared", "-o", so, *objs] + (["-fopenmp"] if variant == "plain" else ["-pthread"])
            _run(link)
            os.makedirs(dst, exist_ok=True)
            os.replace(so, target)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        olds = sorted((d for d in glob.glob(os.path.join(out_root, variant + "-*")) if d != dst), key=os.path.getmtime)
        for d in olds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        return target


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
