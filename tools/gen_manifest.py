"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "seeded deterministic simulation with fault injection"
CLAIMED = {
    "C01": "lockstep reference model plus registry invariants over seeded scenarios and fault schedules, both engines",
    "C02": "lockstep car-following model plus model-free spacing, order and speed invariants, both engines",
    "C03": "counts and travel times recomputed from observed movements at every step, both engines",
    "C04": "leaky-bucket window bound and exact allowance model under seeded capacity changes and closures, both engines",
    "C05": "programme model plus green-only and phase-length invariants under seeded overrides, both engines",
    "C06": "permitted-choice model and path checks over recorded histories, both engines",
    "C07": "exact comparison of undisturbed runs with runs next to clock jumps, foreign random draws, other worlds and other hash seeds, both engines",
    "C08": "exact comparison of seeded divisions into execution calls with one uninterrupted run, both engines",
    "C09": "exact comparison of uninterrupted runs with runs through seeded copies, saves, process crashes and restores, failing and torn saves",
    "C12": "lockstep of the two engines on seeded scenarios without randomness and with seeded interventions; every step and all end-of-run results compared",
    "C13": "every table recomputed from observed movements at seeded reading points; exact comparison with the run never read, both engines",
    "C15": "demand recomputed per definition in both engines; release order and no-needless-waiting by lockstep model",
    "C19": "own Dijkstra over current travel times and tolls at every guidance update, blending and refresh schedule, both engines",
    "C21": "search for a legal processing order explaining each step's transfers; long-run shares against merge priorities",
    "C14": "seeded saves with disk faults and torn files, loads in one, two and partial steps; exact comparison of networks, demands and rerun records",
    "C22": "every call of attached functions checked in seeded runs; exact comparison of interventions inside and between steps; injected raising functions",
    "C16": "every dispatch, boarding and alighting checked in seeded runs with taxis, requests and background traffic; statistics recomputed; exact repetition under interference",
    "C10": "every thread interleaving of the compiled engine decided by a simulated OpenMP runtime with a race detector; exact comparison with the one-thread run",
    "C11": "the simulated OpenMP runtime with seeded invalid vehicles; same error, same step and intact bystander worlds under every schedule",
    "C17": "seeded disruptions that end; bounded-progress and recovery checks, every standstill must be a circular wait",
    "C20": "output calls under a simulated failing file system: fault-free and faulty executions compared with the run without output; failed calls repeated",
    "C18": "deterministic simulation: seeded search histories of all four assignment solvers on both engines under controlled global randomness, interrupted at seeded evaluations and continued; every evaluated world kept and checked against recomputed route costs, totals, best-of-evaluated, replays of the assigned routes and a repetition with the same seeds",
    "C24": "seeded search: random networks, cost functions and seeds; the utilities are called at seeded moments of a simulated run with interventions and their results compared with brute-force searches over the scenario and the recorded travel times; the run is repeated without the calls",
    "C23": "seeded street maps from a simulated map service with seeded failures through both importers and into worlds in seeded states; every stage compared with the map, then a run on the imported network",
    "C26": "seeded user errors (unknown and used names, unfitting groups and routes, foreign objects) injected at seeded moments of runs of both engines; each must be rejected without a trace, and the run must be that of a twin without them",
    "C27": "drawing primitives as the seam: every line, dot, cell, colour, width, picture and printed row at seeded moments of seeded runs compared with the records of the run, both engines",
    "C25": "the real viewer on an offscreen toolkit with simulated timer, menus, dialogs and a recording painter; seeded interaction schedules, after every event the display compared with the records of the chosen time",
}
NA = {
}


def main():
    extra = {}
    p = os.path.join(HERE, "tools", "manifest_extra.json")
    if os.path.exists(p):
        extra = json.load(open(p))
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % i, thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=T, level="exploration", level_note=CLAIMED[i]))
    na = [dict(property=i, reason=NA.get(i, "no check has been built for it yet")) for i in ids if i not in CLAIMED]
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na)
    m["hooks"] = dict(guard="none", enable="no hooks were needed in /repo: every seam is taken over from outside (see dst/env.py, dst/sim.py, simomp/)", source_commits=[])
    m.update(extra)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
