"""Decides one property: explores its bounded model, replays every transition on
the implementation, and validates recorded histories against the specification."""
import json
import os
import sys
import threading
import traceback

from common import CheckError, ROOT, Run, text
import stages
from table import CHECKS


def explore_and_trace(run, conf, binary):
    """The exhaustive model and the recorded histories, side by side."""
    n = conf.get("histories", (1600, 12000))[0 if run.quick else 1]
    jobs = []
    if conf.get("explore", True):
        jobs.append(("explore", lambda w: stages.explore(run, binary, w)))
    if n:
        jobs.append(("trace", lambda w: stages.histories(run, binary, conf.get("profile", run.pid), n, w)))
    workers = 8
    errs = []

    def guarded(f):
        try:
            f(workers)
        except CheckError as e:
            errs.append(str(e))
        except Exception:
            errs.append(traceback.format_exc())

    ts = [threading.Thread(target=guarded, args=(f,)) for _, f in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise CheckError("\n".join(errs))


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(stages.replay_file(sys.argv[2]))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CHECKS[pid]
    run = Run(pid, tier, seed)
    try:
        binary = run.build()
        run.log("driver built, seed %d, %s" % (seed, tier))
        if conf.get("explore", True) or conf.get("histories", (1, 1))[0]:
            explore_and_trace(run, conf, binary)
        for extra in conf.get("extra", []):
            getattr(stages, extra)(run, binary)
        stages.probes(run, binary)
    except CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e))
        if not run.violations:
            sys.exit(2)
    run.assumptions = stages.ASSUMPTIONS + conf.get("assumptions", [])
    run.finish(conf.get("level", "model_checking"))


main()
