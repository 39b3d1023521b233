import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading_seam  # patches the lock types before anything is imported


def main(argv):
    import runner
    cmd = argv[0]
    try:
        if cmd == "check":
            tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
            return runner.cmd_check(argv[1], tier)
        if cmd == "replay":
            return runner.cmd_replay(argv[1])
        if cmd == "digests":
            return runner.cmd_digests(argv[1], int(argv[2]), argv[3], [int(i) for i in argv[4:]])
        if cmd == "selftest":
            import selftest
            return selftest.main(argv[1:])
        if cmd == "triage":       # PID n: distinct outcomes of n scenarios (development aid)
            import re
            prop = runner.load_prop(argv[1])
            base = int(os.environ.get("VERIF_SEED", "1"))
            seen = {}

            def work(w):
                for i in range(w, int(argv[2]), 8):
                    seed, sc = runner.scenario(prop, base, i, "quick")
                    yield i, runner.run_forked(prop, sc)
            import tempfile, json
            d = tempfile.mkdtemp()
            pids = []
            for w in range(8):
                pid = os.fork()
                if pid == 0:
                    with open(d + "/%d" % w, "w") as f:
                        for i, r in work(w):
                            if r["status"] != "ok":
                                f.write(json.dumps([i, r["status"], r.get("kind"), r.get("detail")]) + "\n")
                                f.flush()
                    os._exit(0)
                pids.append(pid)
            for p in pids:
                os.waitpid(p, 0)
            for w in range(8):
                for line in open(d + "/%d" % w):
                    i, st, kind, dd = json.loads(line)
                    key = (st, kind, re.sub(r"[-0-9.e+]+", "#", str(dd))[:150])
                    seen.setdefault(key, []).append((i, dd))
                os.remove(d + "/%d" % w)
            os.rmdir(d)
            for k, v in sorted(seen.items(), key=lambda t: -len(t[1])):
                print(len(v), k[0], k[1], "| i=%d |" % v[0][0], str(v[0][1])[:600])
            return 0
        if cmd == "one":
            import json
            prop = runner.load_prop(argv[1])
            base = int(os.environ.get("VERIF_SEED", "1"))
            seed, sc = runner.scenario(prop, base, int(argv[2]), "quick")
            print(json.dumps(sc))
            if len(argv) > 3:       # in this process, for a debugger
                import tempfile, shutil
                os.environ["VERIF_SCRATCH"] = d = tempfile.mkdtemp(dir="/dev/shm")
                os.chdir(d)
                import faulthandler
                faulthandler.enable()
                try:
                    res = runner.run_here(prop, sc)
                finally:
                    os.chdir("/")
                    shutil.rmtree(d)
            else:
                res = runner.run_forked(prop, sc)
            for e in res["events"]:
                print("  ", e)
            for k in ("status", "kind", "detail", "counts", "faults", "trivial", "digest"):
                print(k, ":", res[k])
            return 0
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        return 3
    print("usage: check|replay|digests|selftest|one")
    return 3


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    import runner
    sys.exit(rc)
