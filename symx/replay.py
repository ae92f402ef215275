"""Runs harnesses on the real, un-instrumented code with concrete values.
usage: replay.py ID jobs.json  -> results as JSON on the last line"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.common import REPO, VERIF, load_check, setup_path

def origin(exc):
    """'repo' if the exception was raised by code under test (or below it), 'harness' otherwise"""
    where = "harness"
    tb = exc.__traceback__
    inner = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO):
            inner = "repo"
        elif fr.filename.startswith(os.path.join(VERIF, "checks")):
            inner = "harness"
    return inner or where


def main():
    pid, jobs = sys.argv[1], json.load(open(sys.argv[2]))
    setup_path(False)
    from symx import env
    from symx.provider import ConcreteProvider, ReplayMismatch, ReplayStop, ReplayViolation
    from symx.values_lite import canon
    mod = load_check(pid)
    units = {u.name: u for u in env.UNITS}
    out = []
    for job in jobs:
        u = units[job["unit"]]
        x = ConcreteProvider(job["model"], job.get("tier", "quick"))
        env.reset()
        res = {"ok": True, "outcome": "ok"}
        try:
            u.fn(x, **u.params)
        except ReplayStop:
            pass
        except ReplayViolation as v:
            res["outcome"] = "violation:" + str(v)
        except ReplayMismatch as m:
            res["outcome"] = "mismatch:" + str(m)
        except Exception as exc:
            res["outcome"] = "exception:%s:%s" % (type(exc).__name__, origin(exc))
            res["trace"] = traceback.format_exc()[-2500:]
        env.reset()
        if hasattr(mod, "replay_cleanup"):
            mod.replay_cleanup()
        res["obs"] = [[l, canon(v)] for l, v in x.obs]
        out.append(res)
    sys.stdout.write("\n" + json.dumps(out) + "\n")


if __name__ == "__main__":
    main()
