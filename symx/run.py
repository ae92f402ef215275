"""Check driver: run.py ID quick|thorough"""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.common import REPO, VERIF, load_check, setup_path
from symx.replay import origin

PY = sys.executable


def run_unit(u, tier, seed, q):
    from symx import core, env
    from symx.provider import SymProvider
    lim = dict(time_limit=400 if tier == "quick" else 2400)
    lim.update({k: v for k, v in u.limits.items() if k in ("time_limit", "max_paths", "query_ms", "keep_models", "max_viol")})
    eng = core.Engine(seed=seed, **lim)

    def path(e):
        env.reset()
        x = SymProvider(e, tier)
        try:
            u.fn(x, **u.params)
        except Exception as exc:
            if e.aborting is not None:
                raise e.aborting
            n = len(e.violations)
            e.settle()
            where = origin(exc)
            if where != "repo" and len(e.violations) > n:
                e.abort(core.StopPath())
            label = "exception:%s" % type(exc).__name__
            if where != "repo":
                e.abort(core.Inconclusive("harness error: " + "".join(traceback.format_exception(exc))[-1500:]))
            m = e.get_model()
            if m is None:
                e.abort(core.Infeasible())
            e._violate(label, m, "".join(traceback.format_exception(exc))[-1500:])
        finally:
            env.reset()
        if e.aborting is not None:
            raise e.aborting

    try:
        eng.explore(path)
        res = dict(unit=u.name, paths=eng.paths, aborted=eng.aborted, branches=eng.branches, queries=eng.queries,
                   asserts=eng.asserts, solver_s=round(eng.solver_s, 3), wall=round(eng.wall, 3), reached=eng.reached,
                   violations=eng.violations, samples=eng.samples, problems=eng.problems, functions=sorted(eng.functions),
                   concretised=eng.concretised, complete=eng.complete, missing=[l for l in u.reach if l not in eng.reached])
    except BaseException:
        res = dict(unit=u.name, crash=traceback.format_exc()[-3000:])
    q.put(json.dumps(res, default=str))


def run_units(units, tier, seed):
    ctx = mp.get_context("fork")
    jobs = int(os.environ.get("SYMX_JOBS", "8"))
    pending, running, results = list(units), {}, []
    while pending or running:
        while pending and len(running) < jobs:
            u = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_unit, args=(u, tier, seed, q))
            p.start()
            running[u.name] = (p, q)
        for name, (p, q) in list(running.items()):
            if not q.empty():
                results.append(json.loads(q.get()))
                p.join()
                del running[name]
            elif not p.is_alive():
                if q.empty():
                    results.append(dict(unit=name, crash="process ended with %s" % p.exitcode))
                    del running[name]
        time.sleep(0.01)
    order = {u.name: i for i, u in enumerate(units)}
    return sorted(results, key=lambda r: order[r["unit"]])


def replay(pid, jobs):
    if not jobs:
        return []
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-jobs.json" % pid)
    json.dump(jobs, open(f, "w"))
    env = dict(os.environ, PYTHONHASHSEED="0")
    p = subprocess.run([PY, "-B", os.path.join(VERIF, "symx", "replay.py"), pid, f], capture_output=True, text=True, env=env, timeout=600, cwd=VERIF)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        raise RuntimeError("replay process failed:\n" + p.stdout[-2000:] + p.stderr[-4000:])


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                d = dict(p.split("=", 1) for p in line.split(" ; ")[0][7:].split(" ") if "=" in p)
                d["text"] = line.split(" ; ", 1)[1]
                out.append(d)
    return out


def main():
    t0 = time.perf_counter()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] != '-v' else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    setup_path(True)
    from symx import env
    from symx.values_lite import same_obs
    mod = load_check(pid)
    units = [u for u in env.UNITS if tier in u.tiers and (only is None or only in u.name)]
    if hasattr(mod, "preload"):
        mod.preload()
    results = run_units(units, tier, seed)
    errors, viols, known_hit = [], [], []
    known = known_findings(pid)
    for r in results:
        if "crash" in r:
            errors.append("%s: %s" % (r["unit"], r["crash"]))
            continue
        for p in r["problems"]:
            errors.append("%s: %s" % (r["unit"], p))
        if r["complete"] and not r["violations"]:
            for l in r["missing"]:
                errors.append("%s: vacuous, label %r never reached" % (r["unit"], l))
    if not results:
        errors.append('no units for this tier')
    ok = [r for r in results if "crash" not in r]
    # replay counterexamples and a sample of path models on the real code
    jobs, kinds = [], []
    for r in ok:
        for v in r["violations"]:
            jobs.append({"unit": r["unit"], "model": v["model"], "tier": tier})
            kinds.append(("viol", r, v))
        for s in r["samples"]:
            jobs.append({"unit": r["unit"], "model": s["model"], "tier": tier})
            kinds.append(("sample", r, s))
    validated = 0
    try:
        outs = replay(pid, jobs)
    except Exception as exc:
        outs = []
        errors.append("replay: %s" % exc)
    confirmed = []
    for (kind, r, item), o in zip(kinds, outs):
        if kind == "viol":
            exp = item["label"]
            if o["outcome"].startswith("violation:") or (exp.startswith("exception:") and o["outcome"] == exp + ":repo") or \
                    (o["outcome"].startswith("exception:") and o["outcome"].endswith(":repo")):
                confirmed.append((r, item, o))
            else:
                errors.append("%s: counterexample to %r does not reproduce on the real code (%s) model=%s info=%s obs_sym=%s obs_real=%s %s" % (
                    r["unit"], exp, o["outcome"], json.dumps(item["model"])[:1500], item["info"][-1200:], json.dumps(item["obs"])[:800], json.dumps(o["obs"])[:800], o.get("trace", "")))
        else:
            if o["outcome"] != "ok":
                # the path itself may end in a violation already reported
                if r["violations"] and o["outcome"].startswith(("violation", "exception")):
                    continue
                errors.append("%s: path model behaves differently on the real code: %s model=%s %s" % (r["unit"], o["outcome"], json.dumps(item["model"])[:1500], o.get("trace", "")))
                continue
            a, b = item["obs"], o["obs"]
            if len(a) != len(b) or not all(x[0] == y[0] and same_obs(x[1], y[1]) for x, y in zip(a, b)):
                diff = [(x, y) for x, y in zip(a, b) if not (x[0] == y[0] and same_obs(x[1], y[1]))][:2]
                errors.append("%s: observations differ from the real code: %s model=%s" % (r["unit"], json.dumps(diff)[:1500], json.dumps(item["model"])[:800]))
                continue
            validated += 1
    n = 0
    for r, item, o in confirmed:
        kf = [k for k in known if k.get("unit") == r["unit"].split(" ")[0] and k.get("label") == item["label"].replace(" ", "_")]
        if kf:
            known_hit.append(kf[0])
            continue
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, n))
        n += 1
        json.dump({"property": pid, "unit": r["unit"], "label": item["label"], "model": item["model"], "outcome": o["outcome"], "info": item["info"]}, open(path, "w"), indent=1)
        viols.append((r, item, o, path))
    seen = set()
    for k in known_hit:
        if k["text"] not in seen:
            seen.add(k["text"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for r, item, o, path in viols:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   unit=%s assertion=%s outcome=%s" % (r["unit"], item["label"], o["outcome"]))
        print("   model=%s" % json.dumps(item["model"])[:1500])
        if item["info"]:
            print("   info=%s" % item["info"][:1500])
    functions = sorted(set(f for r in ok for f in r["functions"]))
    tot = lambda k: sum(r[k] for r in ok)
    samples = []
    for r in ok:
        for s in r["samples"][:1]:
            samples.append({"unit": r["unit"], "model": s["model"], "observed": s["obs"][:6]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") if ok else 0, "transitions": tot("branches") if ok else 0,
            "traces_validated_against_impl": validated, "samples": samples[:12],
            "rule": "states = symbolic paths explored (each covers all values satisfying its path condition); transitions = two-sided branch decisions; traces_validated = path models replayed on the un-instrumented code with equal observations",
            "queries": tot("queries") if ok else 0, "assertions_discharged": tot("asserts") if ok else 0,
            "solver_s": round(tot("solver_s"), 2) if ok else 0,
            "functions_encoded": functions, "bounds": getattr(mod, "BOUNDS", ""),
            "outside_the_claim": getattr(mod, "OUTSIDE", ""),
            "units": [{k: r[k] for k in ("unit", "paths", "aborted", "branches", "queries", "asserts", "solver_s", "wall", "complete", "concretised")} for r in ok],
            "exhaustive": all(r["complete"] for r in ok) and not errors,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.perf_counter() - t0, 2), "violations": len(viols),
    }
    if hasattr(mod, "extra_evidence"):
        ev["coverage"].update(mod.extra_evidence())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shown = {}
    for e in errors:
        k = (e.split(":")[0], e[-80:])
        shown[k] = shown.get(k, 0) + 1
        if shown[k] == 1 and len(shown) <= 6:
            print("ERROR " + e[:2500])
    print("%s %s: %d units, %d paths, %d branches, %d queries (%.1fs solver), %d assertions, %d replayed traces, %.1fs wall%s" % (
        pid, tier, len(results), ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["queries"],
        ev["coverage"]["solver_s"], ev["coverage"]["assertions_discharged"], validated, ev["wall_s"], "" if ev["coverage"]["exhaustive"] else " (not exhaustive)"))
    if "-v" in sys.argv or os.environ.get("SYMX_V"):
        for r in ok:
            print("  %-40s paths=%d aborted=%d queries=%d asserts=%d solver=%.1f wall=%.1f conc=%s" % (r["unit"], r["paths"], r["aborted"], r["queries"], r["asserts"], r["solver_s"], r["wall"], r["concretised"]))
    if viols:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.stdout.flush()
    sys.exit(main())
