"""Plants bugs: reads a Python file defining BUGS, checks each in a scratch copy of /repo and stores it under seeded/<id>.

Each bug: dict(id, property, needs, breaks, edits=[(file, old, new)], demo=source, cpp=False).
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
PY = "/opt/venv/bin/python"
HEAD = '''"""Exit 0 if the property holds, 1 if it is broken."""
import io, builtins, os, sys
sys.path.insert(0, os.getcwd())
_open = io.open
def _o(f, *a, **k):
    if not isinstance(f, int) and str(f).endswith("HackGen-Regular.ttf") and not os.path.exists(f):
        f = os.path.join(os.path.dirname(str(f)), "Inconsolata.otf")
    return _open(f, *a, **k)
io.open = builtins.open = _o
import warnings
warnings.simplefilter("ignore")
from uxsim import *
'''
SH = '''#!/bin/bash
# run with cwd /repo
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def demo(root, path, cpp):
    code = "import sys,os,runpy;sys.path.insert(0,%r);os.environ['DST_REPO']=%r;from dst import env,build;env.setup(build.build('plain') if %r else None);runpy.run_path(%r,run_name='__main__')" % (V, root, bool(cpp), path)
    cmd = [PY, "-c", code] if cpp or root != "/repo" else ["bash", os.path.join(os.path.dirname(path), "demo.sh")]
    r = subprocess.run(cmd, cwd=root, env=dict(os.environ, DST_REPO=root, MPLBACKEND="Agg"), capture_output=True, text=True, timeout=280)
    return r.returncode, (r.stdout + r.stderr)[-700:]


def main(spec, only=None):
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only:
            continue
        w = "/tmp/seedwork_" + b["id"]
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.check_call("git -C %s archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (R, w, w), shell=True)
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches %d times: %r" % (s.count(old), old[:80]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            d = os.path.join(V, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "diff"], cwd=w, text=True))
            open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            a = demo(R, os.path.join(d, "demo.py"), b.get("cpp"))
            z = demo(w, os.path.join(d, "demo.py"), b.get("cpp"))
            print(b["id"], "OK" if a[0] == 0 and z[0] == 1 else "BAD", "unchanged", a[0], "patched", z[0], z[1].strip().splitlines()[-1:] if z[0] else "", a[1] if a[0] else "")
        shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1], sys.argv[2:])
