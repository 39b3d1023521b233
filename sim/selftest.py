"""bin/check selftest [PID...]: one seed is one execution.

Runs a sample of every property's scenarios in three fresh interpreters: twice in the environment that bin/check sets up
(the digests of the scenario, the outcome and the event trace must agree; exit status 1 if any differ), and once with
another hash seed (reported: xarray, dask and pygeode iterate over sets here and there)."""
import os, sys, time
import runner

TIMES = ("0", "0", "4242")


def main(args):
    ids = args or ["P%02d" % i for i in range(1, 19)]
    n = int(os.environ.get("VERIF_RUNS", "40"))
    base = os.environ.get("VERIF_SEED", "1")
    bad = 0
    for pid in ids:
        t = time.time()
        idxs = [str(i) for i in range(n)]
        outs = []
        for hs in TIMES:
            rc, out = runner.fresh(["digests", pid, base, "quick"] + idxs, hashseed=hs, wall=1800)
            outs.append([l for l in out.splitlines() if l.startswith("DIGEST")])
            if rc != 0 or len(outs[-1]) != n:
                print("%s: hash seed %s: exit %s, %d of %d digests" % (pid, hs, rc, len(outs[-1]), n))
                bad += 1
        diff = [i for i, row in enumerate(zip(*outs)) if len(set(row[:2])) > 1]
        other = [i for i, row in enumerate(zip(*outs)) if len(set(row[1:])) > 1]
        bad += len(diff)
        print("%s: %d scenarios, %d interpreters, %d differ%s, %d with another hash seed%s (%.0f s)" % (
            pid, n, len(TIMES), len(diff), " " + str(diff[:10]) if diff else "", len(other), " " + str(other[:10]) if other else "", time.time() - t))
        for i in diff[:2]:
            for o in outs:
                print("   " + o[i])
        sys.stdout.flush()
    return 1 if bad else 0
