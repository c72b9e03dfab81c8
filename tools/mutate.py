"""Seeded mutation analysis of the checks themselves (a development aid; no registered check uses it).

mutate.py FILE SEED COUNT [JOBS]  draws COUNT random small changes of FILE (relative to the repository), applies each
to a scratch copy of it and runs the checks until one reports a violation. Results are appended to /tmp/mut/results.jsonl.
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
SKIP = re.compile(os.environ.get("MUT_SKIP", r"print|show_|plot|network_anim|network_fancy|network_pillow|time_space|hard_copy|__repr__|__str__|_to_csv|output_data|macroscopic|get_font|cumulative_curves$|log_view|warn"))
ORDER = os.environ.get("MUT_CHECKS", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12 C13 C14 C15 C16 C19 C21 C22 C17 C18 C10 C11 C20").split()
WALL = os.environ.get("MUT_WALL", "15")


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []
    CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "==")}
    BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/")}

    def between(a, c, old, new, n):
        s, e = span(a)[1], span(c)[0]
        t = b[s:e].decode()
        if t.count(old) == 1:
            out.append((n.lineno, s, e, t.replace(old, new), fn[-1]))
    fn = ["<module>"]

    def walk(n):
        f = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if isinstance(n, ast.FunctionDef):
            if SKIP.search(n.name):
                return
        if f:
            fn.append((fn[-1] + "." if fn[-1] != "<module>" else "") + n.name)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            between(n.left, n.comparators[0], o, w, n)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            between(n.left, n.right, o, w, n)
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], o, w, n)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float) and fn[-1] != "<module>":
            s, e = span(n)
            out.append((n.lineno, s, e, repr(n.value + 1), fn[-1]))
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            s, e = span(n.test)
            out.append((n.lineno, s, e, "not (%s)" % b[s:e].decode(), fn[-1]))
        if fn[-1] != "<module>" and isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s, e = span(n)
            if not re.search(r"print|warn", b[s:e].decode()):
                out.append((n.lineno, s, e, "pass", fn[-1]))
        if isinstance(n, (ast.Continue, ast.Break)):
            s, e = span(n)
            out.append((n.lineno, s, e, "pass", fn[-1]))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and c in (n.args,):
                continue
            walk(c)
        if f:
            fn.pop()
    walk(tree)
    return [(ln, b[s:e].decode(), (b[:s] + t.encode() + b[e:]).decode(), t, f) for ln, s, e, t, f in out]


def cpp_mutants(src):
    out = []
    pos = 0
    fname = "?"
    for i, l in enumerate(src.split("\n")):
        m = re.match(r"^[\w:<>*& ]+?\b(\w+::~?\w+)\(", l)
        if m:
            fname = m.group(1)
        code = l.split("//")[0]
        if not l.startswith("#") and not code.strip().startswith(("*", "/*")) and not SKIP.search(fname) and '"' not in code:
            for pat, rep in ((r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\+= ", "-= "), (r"-= ", "+= ")):
                for m in re.finditer(pat, code):
                    s, e = pos + m.start(), pos + m.end()
                    out.append((i + 1, l.strip(), src[:s] + rep + src[e:], rep, fname))
            if re.match(r"^\s+[\w\->\.\[\]]+(\(.*\)| = .*| \+= .*| -= .*|\+\+|--);\s*$", code):
                out.append((i + 1, l.strip(), src[:pos] + re.match(r"^\s+", l).group(0) + ";" + src[pos + len(l):], ";", fname))
            if re.match(r"^\s+(continue|break);", code):
                out.append((i + 1, l.strip(), src[:pos] + ";" + src[pos + len(l):], ";", fname))
        pos += len(l) + 1
    return out


def one(a):
    f, m, k = a
    ln, old, new, rep, fn = m
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git", "demos_and_examples", "dat", "docs", "build"))
        open(os.path.join(r, f), "w").write(new)
        caught, why = None, ""
        env = dict(os.environ, DST_REPO=r, DST_NODET="1", DST_NOEVIDENCE="1", DST_WALL=WALL, DST_WORKERS=os.environ.get("DST_WORKERS", "2"), VERIF_SEED="1", DST_FAST="1")
        if f.endswith((".cpp", ".h")):
            env["DST_BUILD"] = os.path.join(d, "build")
        for c in ORDER:
            try:
                p = subprocess.run(["nice", "-n", "15", PY, os.path.join(VERIF, "check.py"), c], env=env, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                caught, why = c, "timeout"
                break
            if p.returncode:
                caught = c
                why = ([l for l in p.stdout.split("\n") if "case" in l and "fails" in l] + p.stdout.strip().split("\n")[-1:] + p.stderr.strip().split("\n")[-1:])[0][:200]
                break
        rec = dict(file=f, line=ln, fn=fn, old=old[:160], new=rep[:120], caught=caught, why=why)
        open("/tmp/mut/results.jsonl", "a").write(json.dumps(rec) + "\n")
        print(json.dumps(rec), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    f, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    os.makedirs("/tmp/mut", exist_ok=True)
    src = open(os.path.join(REPO, f)).read()
    ms = py_mutants(src) if f.endswith(".py") else cpp_mutants(src)
    if os.environ.get("MUT_FN"):
        ms = [m for m in ms if re.search(os.environ["MUT_FN"], m[4])]
    rng = random.Random(seed)
    rng.shuffle(ms)
    print(len(ms), "possible")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, [(f, m, k) for k, m in enumerate(ms[:count])]))
