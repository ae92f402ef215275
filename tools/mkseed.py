"""Author and validate planted changes.

usage: mkseed.py SPEC.py [id ...]     write /verif/seeded/<id>/ from the specs and validate them
       mkseed.py --check [id ...]     run the property's quick check against existing seeds
A spec file defines SEEDS: list of dicts id, property, edits [(file, old, new)], needs, breaks, demo (python text).
Everything runs in a private mount namespace where a copy stands for /repo."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
SEEDED = V + "/seeded"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def in_ns(copy, script, timeout=1200):
    cache = copy + "-cache"
    if not os.path.isdir(cache):
        subprocess.run(["cp", "-a", "/opt/vp/cache", cache])
    full = f"mount --bind {copy} /repo && mount --bind {cache} /opt/vp/cache && cd /repo && {script}"
    return sh(["unshare", "-m", "bash", "-c", full], timeout=timeout)


def stable_ids():
    b = STABLE
    for k in ("stable", "stable_tests", "passed", "tests"):
        if k in b:
            v = b[k]
            return set(v if isinstance(v, list) else v.keys())
    raise SystemExit("BASELINE keys: %s" % list(b))


def validate(sid, run_tests=True):
    d = f"{SEEDED}/{sid}"
    base = tempfile.mkdtemp(prefix=f"seed-{sid}-", dir="/tmp")
    copy = base + "/repo"
    res = {"id": sid}
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["cp", "-a", d, base + "/demo"], check=True)
        demo = f"timeout 300 bash {base}/demo/demo.sh"
        r = in_ns(copy, f"bash /opt/vp/build.sh >/dev/null 2>&1; {demo}")
        res["clean_demo"] = r.returncode
        if r.returncode:
            res["clean_out"] = (r.stdout + r.stderr)[-1500:]
        r = sh(["git", "-C", copy, "apply", f"{d}/patch.diff"])
        if r.returncode:
            res["apply"] = r.stderr
            return res
        r = in_ns(copy, f"bash /opt/vp/build.sh; echo BUILD=$?; {demo}; echo DEMO=$?")
        res["build"] = "BUILD=0" in r.stdout
        res["bug_demo"] = r.stdout.strip().splitlines()[-1]
        res["bug_out"] = (r.stdout + r.stderr)[-400:]
        if run_tests:
            r = in_ns(copy, f"bash /opt/vp/test.sh {base}/out.json")
            try:
                o = json.load(open(base + "/out.json"))
                passed = set(o.get("passed", []))
                res["missing_tests"] = sorted(stable_ids() - passed)
            except Exception as e:
                res["missing_tests"] = ["no result: %s" % e]
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check(sid):
    d = f"{SEEDED}/{sid}"
    meta = json.load(open(d + "/meta.json"))
    base = tempfile.mkdtemp(prefix=f"seedc-{sid}-", dir="/tmp")
    copy, vcopy = base + "/repo", base + "/verif"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", V + "/", vcopy] if shutil.which("rsync") else ["cp", "-a", V, vcopy], check=True)
        r = sh(["git", "-C", copy, "apply", f"{d}/patch.diff"])
        if r.returncode:
            return sid, "does not apply"
        cmd = f"mount --bind {vcopy} /verif && cd /verif && ./check {meta['property']} quick"
        r = in_ns(copy, cmd)
        caught = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
        return sid, meta["property"], "CAUGHT" if caught else "missed rc=%d" % r.returncode, "\n".join(r.stdout.splitlines()[:3] if caught else (r.stdout + r.stderr).splitlines()[:6])[:1200]
    finally:
        shutil.rmtree(base, ignore_errors=True)


def write(s):
    d = f"{SEEDED}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    base = tempfile.mkdtemp(prefix="seedw-", dir="/tmp")
    try:
        copy = base + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        for f, old, new in s["edits"]:
            p = f"{copy}/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", copy, "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if "demo" in s:
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    else:
        for n, t in s["files"].items():
            open(d + "/" + n, "w").write(t.lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def main():
    args = sys.argv[1:]
    if args[0] == "--check":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
            for r in ex.map(check, ids):
                print(*r[:3], flush=True)
                if len(r) > 3 and r[2] != "CAUGHT" or os.environ.get("V"):
                    print("    " + r[3].replace("\n", "\n    "))
        return
    if args[0] == "--validate":
        ids = args[1:]
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        seeds = [s for s in ns["SEEDS"] if not args[1:] or s["id"] in args[1:]]
        for s in seeds:
            write(s)
        ids = [s["id"] for s in seeds]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for r in ex.map(validate, ids):
            good = r.get("clean_demo") == 0 and r.get("build") and r.get("bug_demo") not in ("DEMO=0", None) and not r.get("missing_tests")
            print("OK " if good else "BAD", json.dumps(r if not good else {"id": r["id"]}), flush=True)


main()
