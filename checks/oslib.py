"""A virtual file system and process table under /v: stand-ins for the calls by which the code under
test creates, changes and deletes files and signals processes. Nothing real is ever touched; a
call outside of /v is recorded for ownership changes and otherwise makes the check inconclusive."""
import builtins
import errno
import grp
import io
import os
import posixpath
import pwd
import shutil
import tempfile

from symx.env import Patch, Stub

ROOT = "/v"
_real = {n: getattr(os, n) for n in ("stat", "lstat", "open", "close", "write", "listdir", "scandir", "fstat", "getcwd")}
_open = builtins.open


class Node:
    def __init__(self, kind, mode, data=b"", uid=0):
        self.kind, self.mode, self.data, self.uid, self.gid = kind, mode, data, uid, 0
        self.fresh = True


def virtual(path):
    return type(path) is str and (path == ROOT or path.startswith(ROOT + "/"))


class FakeOS:
    def __init__(self, x, fault=None, users=None, umask=0):
        self.x = x
        self.nodes = {ROOT: Node("dir", 0o755)}
        self.fault = fault            # fault(op, path): may raise
        self.log = []                 # (op, path, ...)
        self.fds = {}
        self.next_fd = 10 ** 6
        self.users = users or {}
        self.umask = umask
        self.calls = []               # process state changes made by a preexec function
        self.kill = None              # kill(pid, sig)
        self.made = 0

    # -- helpers
    def hit(self, op, path, *rest):
        self.log.append((op, path) + rest)
        if self.fault is not None:
            self.fault(op, path)

    def norm(self, path, op):
        path = os.fspath(path)
        if type(path) is not str:
            path = str(path)
        if not path.startswith("/"):
            path = posixpath.join(getattr(self, "cwd", "/nowhere"), path)
        path = posixpath.normpath(path)
        if not virtual(path):
            self.x.missing("%s outside of the scratch area: %s" % (op, path))
        return path

    def node(self, path):
        n = self.nodes.get(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return n

    def parent(self, path):
        n = self.nodes.get(posixpath.dirname(path))
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if n.kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)

    def children(self, path):
        return sorted(p for p in self.nodes if p != path and p.startswith(path + "/"))

    # -- calls
    def mkdir(self, path, mode=0o777, **kw):
        path = self.norm(path, "mkdir")
        self.hit("mkdir", path)
        self.parent(path)
        if path in self.nodes:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        self.nodes[path] = Node("dir", mode & ~self.umask)

    def makedirs(self, name, mode=0o777, exist_ok=False):
        path = self.norm(name, "makedirs")
        head = posixpath.dirname(path)
        if head not in self.nodes:
            self.makedirs(head, exist_ok=True)
        try:
            self.mkdir(path, mode)
        except FileExistsError:
            if not exist_ok or self.nodes[path].kind != "dir":
                raise

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        base = self.norm(dir, "mkdtemp") if dir else ROOT + "/tmp"
        if base == ROOT + "/tmp" and base not in self.nodes:
            self.nodes[base] = Node("dir", 0o1777)
            self.nodes[base].fresh = False
        self.made += 1
        path = posixpath.join(base, "%s%08d%s" % (prefix or "tmp", self.made, suffix or ""))
        self.mkdir(path, 0o700)
        return path

    def open(self, path, flags, mode=0o777, **kw):
        if type(path) is not int and not virtual(posixpath.normpath(os.fspath(path))) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) == 0:
            return _real["open"](path, flags, mode, **kw)
        path = self.norm(path, "open")
        self.hit("open", path)
        n = self.nodes.get(path)
        if n is not None and flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        if n is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            self.parent(path)
            n = self.nodes[path] = Node("file", mode & ~self.umask)
        if n.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        if flags & os.O_TRUNC:
            n.data = b""
        self.next_fd += 1
        self.fds[self.next_fd] = path
        return self.next_fd

    def close(self, fd):
        if fd in self.fds:
            del self.fds[fd]
            return
        return _real["close"](fd)

    def write(self, fd, data):
        if fd in self.fds:
            self.hit("write", self.fds[fd])
            self.node(self.fds[fd]).data += data
            return len(data)
        return _real["write"](fd, data)

    def fdopen(self, fd, mode="r", *a, **kw):
        if fd not in self.fds:
            self.x.missing("os.fdopen of a real descriptor")
        return File(self, fd, mode)

    def file(self, path, mode="r", *a, **kw):
        if not isinstance(path, int):
            p = os.fspath(path)
            if not (type(p) is str and virtual(posixpath.normpath(p))) and not set(mode) & set("wax+"):
                return _open(path, mode, *a, **kw)
        elif path not in self.fds:
            return _open(path, mode, *a, **kw)
        else:
            return File(self, path, mode)
        flags = {"r": 0, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[mode.replace("b", "").replace("t", "").replace("+", "")]
        opener = kw.get("opener")
        fd = opener(path, flags) if opener else self.open(path, flags, 0o666)
        return File(self, fd, mode)

    def chown(self, path, uid, gid, **kw):
        if isinstance(path, int) and path in self.fds:
            path = self.fds[path]
        self.log.append(("chown", path, uid, gid))
        if not virtual(path):
            return                    # judged by the harness
        if self.fault is not None:
            self.fault("chown", path)
        n = self.node(posixpath.normpath(path))
        n.uid, n.gid = uid, gid

    def chmod(self, path, mode, **kw):
        if isinstance(path, int) and path in self.fds:
            path = self.fds[path]
        path = self.norm(path, "chmod")
        self.hit("chmod", path, mode)
        self.node(path).mode = mode

    def stat(self, path, *a, **kw):
        if isinstance(path, int) or not virtual(posixpath.normpath(os.fspath(path)) if isinstance(os.fspath(path), str) else None):
            return _real["stat"](path, *a, **kw)
        n = self.node(posixpath.normpath(os.fspath(path)))
        mode = {"dir": 0o040000, "file": 0o100000}[n.kind] | n.mode
        return os.stat_result((mode, 1, 1, 1, n.uid, n.gid, len(n.data), 0, 0, 0))

    def unlink(self, path, **kw):
        path = self.norm(path, "unlink")
        self.hit("unlink", path)
        if self.node(path).kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        del self.nodes[path]

    def rmdir(self, path, **kw):
        path = self.norm(path, "rmdir")
        self.hit("rmdir", path)
        self.node(path)
        if self.children(path):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", path)
        del self.nodes[path]

    def listdir(self, path="."):
        if not virtual(posixpath.normpath(os.fspath(path))):
            return _real["listdir"](path)
        path = self.norm(path, "listdir")
        self.node(path)
        return [posixpath.basename(p) for p in self.children(path) if posixpath.dirname(p) == path]

    def rmtree(self, path, ignore_errors=False, onerror=None, onexc=None, **kw):
        path = self.norm(path, "rmtree")
        try:
            self.hit("rmtree", path)
            if self.node(path).kind != "dir":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        except OSError as e:
            if ignore_errors:
                return
            if onexc is not None:
                return onexc(self.rmtree, path, e)
            if onerror is not None:
                return onerror(self.rmtree, path, (type(e), e, None))
            raise
        for p in self.children(path):
            del self.nodes[p]
        del self.nodes[path]

    def rename(self, a, b, **kw):
        a, b = self.norm(a, "rename"), self.norm(b, "rename")
        self.hit("rename", b)
        self.node(a)
        self.parent(b)
        for p in [a] + self.children(a):
            self.nodes[b + p[len(a):]] = self.nodes.pop(p)

    def getpwnam(self, name):
        self.log.append(("getpwnam", name))
        if name not in self.users:
            raise KeyError("getpwnam(): name not found: %r" % (name,))
        uid, gid, home = self.users[name][:3]
        return Stub(self.x, "pw", pw_uid=uid, pw_gid=gid, pw_dir=home, pw_name=name)

    def getgrall(self):
        out = {}
        for u, v in self.users.items():
            for g in v[3]:
                out.setdefault(g, []).append(u)
        return [Stub(self.x, "group", gr_gid=g, gr_mem=m, gr_name="g%d" % g) for g, m in out.items()]

    def change(self, what):
        def f(*a):
            self.calls.append((what,) + a)
            if self.fault is not None:
                self.fault(what, a[0] if a else None)
        return f

    def signal(self, pid, sig):
        if self.kill is None:
            self.x.missing("os.kill")
        return self.kill(pid, sig)

    def install(self, p):
        no = lambda what: (lambda *a, **kw: self.x.missing(what))
        for name, f in dict(mkdir=self.mkdir, makedirs=self.makedirs, open=self.open, close=self.close, write=self.write, fdopen=self.fdopen,
                            chown=self.chown, lchown=self.chown, fchown=self.chown, chmod=self.chmod, fchmod=self.chmod, lchmod=self.chmod, stat=self.stat, lstat=self.stat,
                            unlink=self.unlink, remove=self.unlink, rmdir=self.rmdir, removedirs=no("os.removedirs"), listdir=self.listdir,
                            rename=self.rename, replace=self.rename, symlink=no("os.symlink"), link=no("os.link"), truncate=no("os.truncate"), mkfifo=no("os.mkfifo"), mknod=no("os.mknod"),
                            kill=self.signal, killpg=self.signal, getpgid=lambda pid: pid, system=no("os.system"), fork=no("os.fork"),
                            setuid=self.change("setuid"), setgid=self.change("setgid"), setgroups=self.change("setgroups"), initgroups=self.change("initgroups"), seteuid=self.change("seteuid"),
                            setegid=self.change("setegid"), setresuid=self.change("setresuid"), setresgid=self.change("setresgid"), setreuid=self.change("setreuid"), setregid=self.change("setregid"),
                            chdir=self.change("chdir"), fchdir=no("os.fchdir"), umask=self.change("umask"), setsid=self.change("setsid"), setpgid=self.change("setpgid")).items():
            p.set(os, name, f)
        p.set(shutil, "rmtree", self.rmtree)
        for name in ("copy", "copy2", "copyfile", "copytree", "move", "chown"):
            p.set(shutil, name, no("shutil." + name))
        p.set(tempfile, "mkdtemp", self.mkdtemp)
        for name in ("mkstemp", "TemporaryDirectory", "NamedTemporaryFile"):
            p.set(tempfile, name, no("tempfile." + name))
        p.set(builtins, "open", self.file)
        p.set(io, "open", self.file)
        p.set(pwd, "getpwnam", self.getpwnam)
        p.set(grp, "getgrall", self.getgrall)
        return self


class File:
    def __init__(self, fs, fd, mode):
        self.fs, self.fd, self.mode = fs, fd, mode

    def write(self, data):
        if "b" not in self.mode:
            data = data.encode("utf8")
        return self.fs.write(self.fd, data)

    def read(self):
        d = self.fs.node(self.fs.fds[self.fd]).data
        return d if "b" in self.mode else d.decode("utf8")

    def flush(self):
        pass

    def fileno(self):
        return self.fd

    def close(self):
        if self.fd is not None:
            fd, self.fd = self.fd, None
            self.fs.close(fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
