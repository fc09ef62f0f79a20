#!/usr/bin/env python3-vt
"""run.py <property> [--thorough] [--replay FILE] [--jobs N] [--seed N]

Exit 0: held on everything explored.  Exit 1: violated, with a VIOLATION line.
Exit 2: inconclusive (a monitor was never reached, or the harness failed).
"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")

MODULES = ["c_spectra", "c_convolve", "c_stats", "c_params", "c_fit",
           "c_limit", "c_store", "c_extract", "c_calc", "c_scripts", "c_plots"]


def find(pid):
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, "checks", m + ".py")):
            continue
        with open(os.path.join(HERE, "checks", m + ".py")) as f:
            if '"%s": ' % pid not in f.read():
                continue
        mod = importlib.import_module(m)
        if pid in mod.PROPS:
            return mod.PROPS[pid]
    raise SystemExit("unknown property %s" % pid)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--workload")
    a = ap.parse_args()
    import mon
    mon.quiet()
    import py2load
    py2load.install()
    tier = "thorough" if a.thorough else "quick"
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    out = sys.stdout
    try:
        prop = find(a.property)
    except SystemExit:
        raise
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        run = mon.Run(a.property, prop, rep["seed"], rep["tier"])
        fn = dict((w[0], w[1]) for w in prop.workloads)[rep["workload"]]
        ctx, viol, err = run.one(rep["workload"], fn, rep["case"])
        if viol:
            out.write("%s\n" % json.dumps(viol, indent=1, default=str))
            out.write("VIOLATION property=%s replay=%s\n"
                      % (a.property, a.replay))
            return 1
        out.write("%s\n" % (err or "held on the replayed case"))
        return 2 if err else 0
    if a.workload:
        prop.workloads = [w for w in prop.workloads if w[0] == a.workload]
        prop.required = []
    jobs = a.jobs or max(1, min(16, os.cpu_count() or 1))
    run = mon.Run(a.property, prop, seed, tier, jobs=jobs, budget=a.budget)
    run.go()
    mon.write_json(os.path.join(mon.EVIDENCE, a.property + ".json"),
                   run.evidence())
    for key in sorted(run.known):
        out.write("KNOWN-FINDING: property=%s %s (%s)\n"
                  % (a.property, run.known[key], key))
    out.write("%s %s seed=%d: %d cases, %d distinct, %d oracle checks, "
              "%.1f s\n" % (a.property, tier, seed, run.cases, len(run.sigs),
                            run.counts.get("checks", 0), run.wall))
    if run.violations:
        path = os.path.join(mon.EVIDENCE, "replay", a.property + ".json")
        mon.write_json(path, run.violations[0])
        for v in run.violations:
            out.write("  %s[%d] %s: %s\n" % (v["workload"], v["case"],
                                             v["kind"], v["message"]))
        out.write("VIOLATION property=%s replay=%s\n" % (a.property, path))
        return 1
    if run.errors:
        for e in run.errors:
            out.write("harness: %s\n" % e)
        return 2
    miss = run.missing()
    if miss or not run.sigs:
        out.write("inconclusive: never observed %s\n" % miss)
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
