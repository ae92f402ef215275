"""C24: the job launcher keeps to its staging directory and always answers."""
import errno
import json
import os
import subprocess
import sys

from oslib import FakeOS
from symx.env import Patch, Stub, unit

TECHNIQUE = "symbolic execution of the real launcher program (Python source) against a model of files and commands, with symbolic requests, file contents, results and failures; z3 over bit vectors and integers"
LEVEL_NOTE = "Every start and stop request with arbitrary short arguments, environment, input and file contents, any return code and output, any state of the staging directory and any single failing file operation or a command that cannot be run."
BOUNDS = "texts of 2 characters (also empty input and output), 0 to 2 files, any return code, one failing operation"
OUTSIDE = "what the command does; links inside the user's own staging area (the launcher runs with the user's rights)"
ASSUMPTIONS = ["file names in a request are plain names, as the gateway sends them"]
DIR = "/v/home/alice/.dask-gateway/c1"


class In:
    def __init__(self, text):
        self.text = text

    def read(self, *a):
        t, self.text = self.text, ""
        return t


class Out:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass


def answer(x, out):
    """the one answer, or None when there is none; two answers are refused"""
    parts = [p for p in out.parts if not isinstance(p, str) or p.strip()]
    if not parts:
        return None
    if all(isinstance(p, str) for p in parts):
        try:
            return json.loads("".join(parts))
        except ValueError:
            x.check(False, "there is exactly one answer")
    x.check(len(parts) == 1, "there is exactly one answer")
    return x.unjson(parts[0])


class World:
    def __init__(self, x, p):
        self.x = x
        self.failing = x.choice("failing", [None, "mkdir", "open", "write", "rmtree", "popen"])
        self.nth = x.choice("nth", [0, 1]) if self.failing in ("open", "write") else 0
        self.count = 0
        self.hit = False
        self.armed = False
        self.fs = FakeOS(x, fault=self.fault, umask=0o022).install(p)
        self.runs = []
        self.code = x.int("code", -64, 255)
        self.out, self.err = x.str("stdout", 2, 0 if self.failing is None else 2), x.str("stderr", 2, 2)
        p.set(subprocess, "Popen", self.popen)
        p.set(subprocess, "run", self.run)
        for n in ("call", "check_call", "check_output", "getoutput", "getstatusoutput"):
            p.set(subprocess, n, lambda *a, n=n, **k: x.missing("subprocess." + n))
        p.set(os, "environ", {"HOME": "/v/home/alice"})

    def fault(self, op, path):
        if self.armed and op == self.failing:
            self.count += 1
            if self.count == self.nth + 1:
                self.hit = True
                raise OSError(errno.EIO, "injected", path)

    def popen(self, cmd, **kw):
        self.fault("popen", None)
        run = {"cmd": cmd, "env": kw.get("env"), "files": {q: n.data for q, n in self.fs.nodes.items() if n.kind == "file"}, "modes": {q: n.mode for q, n in self.fs.nodes.items()}, "stdin": None}
        self.runs.append(run)
        self.x.check(not kw.get("shell"), "the command is not given to a shell")
        proc = Stub(self.x, "process", returncode=None)

        def communicate(data=None, timeout=None):
            run["stdin"] = data
            proc.returncode = self.code
            return self.out.encode("utf8"), self.err.encode("utf8")
        proc.communicate = communicate
        return proc

    def run(self, cmd, input=None, check=False, **kw):
        if check or kw.get("text") or kw.get("encoding") or kw.get("universal_newlines"):
            self.x.missing("subprocess.run with these options")
        proc = self.popen(cmd, **kw)
        out, err = proc.communicate(input)
        return Stub(self.x, "result", returncode=proc.returncode, stdout=out, stderr=err)

    def main(self, p, request):
        import dask_gateway_server.backends.jobqueue.launcher as m
        out = Out()
        p.set(sys, "stdin", In(request))
        p.set(sys, "stdout", out)
        self.armed = True
        crashed = None
        try:
            m.main()
        except Exception as e:
            crashed = e               # the program ends with a traceback and a non-zero code
        self.armed = False
        return answer(self.x, out), crashed


def ran(x, w, req):
    x.check(len(w.runs) == 1, "the command is run exactly once")
    r = w.runs[0]
    x.check(len(r["cmd"]) == len(req["cmd"]) and all(x.eq(a, b) for a, b in zip(r["cmd"], req["cmd"])), "exactly the given command is run")
    x.check(r["env"] is not None and len(r["env"]) == len(req["env"]) and all(x.eq(r["env"].get(k), v) for k, v in req["env"].items()), "it gets exactly the given environment")
    want = req.get("stdin")
    x.check((r["stdin"] is None) == (want is None) and (want is None or bool(x.eq(r["stdin"], want.encode("utf8")))), "it gets the given input")
    return r


def reported(x, w, a):
    x.check(a is not None and a.get("ok") is True, "the result is reported")
    x.check(x.all(x.eq(a["returncode"], w.code), x.eq(a["stdout"], w.out), x.eq(a["stderr"], w.err)), "its return code and output are reported")


def common(x, action):
    return {"action": action, "cmd": ["sbatch", x.str("arg", 2, 2, alphabet="a -;$")], "env": {"A": x.str("env", 2, 2)}}


@unit("start", params=[{"staged": s} for s in (False, True)], reach=["started", "rejected"])
def start(x, staged):
    with Patch() as p:
        w = World(x, p)
        w.fs.makedirs("/v/home/alice", 0o755)
        there = x.choice("there", ["nothing", "parent", "directory", "file"]) if staged else "nothing"
        if there == "parent":
            w.fs.makedirs(os.path.dirname(DIR), 0o755)
        elif there == "directory":
            w.fs.makedirs(DIR, 0o755)
            w.fs.file(DIR + "/mine", "w").close()
        elif there == "file":
            w.fs.makedirs(os.path.dirname(DIR), 0o755)
            w.fs.file(DIR, "w").close()
        before = set(w.fs.nodes)
        req = common(x, "start")
        if x.flip("input"):
            req["stdin"] = x.str("stdin", 2, 2) if x.flip("nonempty") else ""
        files = {}
        if staged:
            files = {n: x.str("data%d" % i, 2, 2) for i, n in enumerate(["dask.pem", "dask.crt"][:x.choice("n_files", [2, 1, 0])])}
            req.update(staging_dir=DIR, files=files)
        elif x.flip("explicit"):
            req.update(staging_dir=None, files=None)
        a, crashed = w.main(p, x_dumps(x, req))
        made = {q: n for q, n in w.fs.nodes.items() if q not in before}
        for q in made:
            x.check(q == os.path.dirname(DIR) or q == DIR or q.startswith(DIR + "/"), "files are written only in the staging directory")
        x.check(not [q for q in before if q not in w.fs.nodes], "nothing that was there before is removed")
        x.check(not w.fs.fds, "no file is left open")
        if staged and there in ("directory", "file"):
            x.check(not w.runs and a is not None and a["ok"] is False and a["error"], "a staging directory that is there already is refused")
            x.reach("rejected")
            return
        if not w.runs:
            x.check(w.hit, "a start without a failure runs the command")
            x.check(crashed is not None or (a is not None and a["ok"] is False and bool(a["error"])), "a start that is not possible is reported")
            x.check(DIR not in w.fs.nodes, "a failed start leaves no staging directory")
            x.reach("rejected")
            return
        r = ran(x, w, req)
        for n, d in files.items():
            q = DIR + "/" + n
            x.check(q in r["files"] and bool(x.eq(r["files"][q], d.encode("utf8"))), "the files are complete before the command is run")
            x.check(r["modes"][DIR] & 0o077 == 0 or r["modes"][q] & 0o077 == 0, "the files are closed to other users")
        x.check(len([q for q in made if q.startswith(DIR + "/")]) <= len(files), "exactly the given files are written")
        reported(x, w, a)
        if staged:
            if w.code == 0:
                x.check(all(DIR + "/" + n in w.fs.nodes for n in files), "the files of a started job stay")
            else:
                x.check(DIR not in w.fs.nodes or w.hit, "a failed start leaves no staging directory")
        x.reach("started")


@unit("stop", params=[{"staged": s} for s in (False, True)], reach=["stopped"])
def stop(x, staged):
    with Patch() as p:
        w = World(x, p)
        w.fs.makedirs("/v/home/alice", 0o755)
        there = x.choice("there", ["full", "empty", "gone", "all gone"])
        if there in ("full", "empty"):
            w.fs.makedirs(DIR, 0o700)
        if there == "full":
            w.fs.file(DIR + "/dask.pem", "w").close()
            w.fs.makedirs(DIR + "/sub", 0o700)
        if there != "all gone":
            w.fs.makedirs(os.path.dirname(DIR) + "/c2", 0o700)
        before = set(w.fs.nodes)
        req = common(x, "stop")
        if staged:
            req["staging_dir"] = DIR
        elif x.flip("explicit"):
            req["staging_dir"] = None
        a, crashed = w.main(p, x_dumps(x, req))
        if not (w.failing == "popen" and w.hit):
            ran(x, w, req)
            if w.hit:
                x.check(a is not None and (a["ok"] is False or a["ok"] is True), "the result is reported")
            else:
                reported(x, w, a)
        else:
            x.check(crashed is not None or a is not None and a["ok"] is False, "a command that cannot be run is reported")
        left = set(w.fs.nodes)
        if staged and not w.hit:
            x.check(DIR not in left, "the staging directory is removed")
        x.check(all(q in left for q in before if not (staged and (q == DIR or q.startswith(DIR + "/")))), "nothing else is removed")
        x.check(left <= before, "nothing is created")
        x.reach("stopped")


def x_dumps(x, req):
    if x.symbolic:
        from symx import models
        return models.m_dumps(req)
    return json.dumps(req)


@unit("invalid", reach=["refused"])
def invalid(x):
    """what is no request is answered and runs nothing"""
    with Patch() as p:
        w = World(x, p)
        text = x.choice("request", ["", "{", "no json", json.dumps({"action": "restart", "cmd": ["x"], "env": {}}), json.dumps({"cmd": ["x"], "env": {}}), json.dumps({"action": None, "cmd": ["x"], "env": {}})])
        before = set(w.fs.nodes)
        a, crashed = w.main(p, text)
        x.check(a is not None and a["ok"] is False and bool(a["error"]), "what is no request is answered with an error")
        x.check(not w.runs and set(w.fs.nodes) == before, "it has no effect")
        x.reach("refused")
