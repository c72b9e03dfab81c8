#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] | replay FILE | digests PROPERTY IDX…"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(a):
    from dst import runner
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "replay":
        return runner.replay(a[1])
    if a[0] == "digests":
        return runner.digests(a[1], [int(x) for x in a[2:]], seed)
    tier = os.environ.get("VERIF_TIER", "quick")
    n = wall = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "-n":
            n = int(a[i + 1])
        elif a[i] == "--wall":
            wall = float(a[i + 1])
        i += 2
    return runner.run_check(a[0], tier, seed, n, wall)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
