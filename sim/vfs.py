"""In-memory file system behind the Python-level OS seam.

Every path below MOUNT ("/sim") is served from a `World`; everything else goes to
the real OS (reads only, while a world is active: a real write is refused and
recorded as an escape).  The seam is `builtins.open`, `io.open`, and the `os.*`
calls; it is installed before moz.l10n (or anything it uses) is imported, so that
`from os import ...` binds the seam.  Real Python code (BufferedIO, TextIOWrapper,
os.walk, os.makedirs, glob, shutil, tempfile, posixpath, polib) runs on top of it;
only the system calls are simulated.

Each system call is one *step*: it is logged, it is a scheduling point, and the
fault plan is consulted there.
"""
from __future__ import annotations

import builtins
import errno as E
import io
import os
import stat as S
import sys
import random
import re
import time

MOUNT = "/sim"
FD0 = 1_000_000

_real: dict[str, object] = {}
_TMPNAME = re.compile(r"^\.(?!l10n-ignore$)|tmp|temp|~$|[0-9a-f]{8}|\.new$|\.part$|t\d{6}")


class SimCrash(BaseException):
    """The simulated process was killed here."""


class HarnessError(BaseException):
    """Something the simulator does not model; never reported as a violation."""


class Hang(HarnessError):
    """A run that does not end."""


class Node:
    __slots__ = ("kind", "data", "entries", "target", "mode", "ino", "mtime", "nlink")

    def __init__(self, kind, ino, mode):
        self.kind = kind  # "f", "d", "l"
        self.ino = ino
        self.mode = mode
        self.data = bytearray() if kind == "f" else None
        self.entries = {} if kind == "d" else None
        self.target = None
        self.mtime = 0
        self.nlink = 1


def oserr(code, path=None, path2=None):
    msg = os.strerror(code)
    if path2 is not None:
        return OSError(code, msg, path, None, path2)
    if path is not None:
        return OSError(code, msg, path)
    return OSError(code, msg)


class World:
    """One simulated machine: disk, clock, fault plan, event log."""

    def __init__(self, tree=None, *, list_seed=0, encoding="utf-8", bufsize=8192):
        self._ino = 10
        self.root = self._new("d", 0o755)
        self.cwd = MOUNT
        self.log: list[tuple] = []
        self.keep_log = True
        self.faults: list[dict] = []
        self.fired: dict[str, int] = {}
        self.fired_faults: list[int] = []
        self.counts: dict[tuple, int] = {}
        self.op = 0
        self.steps = 0
        self.dead = False
        self.gen = 0
        self.list_seed = list_seed
        self.encoding = encoding
        self.bufsize = bufsize
        self.capacity = None  # total bytes on disk allowed
        self.clock = 1_700_000_000.0
        self.escapes: list[str] = []
        self.fds: dict[int, "OpenFile"] = {}
        self.next_fd = FD0
        self.scheduler = None
        self.watch = None  # callable(world) after each mutation
        self.max_steps = 200_000
        self.pending = None
        self.names: set[str] = set()
        self.quiet = 0  # >0: harness-internal access, no faults or logging
        if tree:
            self.put_tree(tree)

    # -- construction and inspection (harness side; no steps) -------------
    def _new(self, kind, mode):
        self._ino += 1
        n = Node(kind, self._ino, mode)
        n.mtime = getattr(self, "clock", 0)
        return n

    def put_tree(self, tree):
        for path, spec in tree.items():
            self.put(path, spec)

    def put(self, path, spec):
        """spec: bytes/str content, None for a directory, or {"link": target}"""
        parts = self._split(path)
        self.names.add(self.norm(path))
        node = self.root
        for p in parts[:-1]:
            nxt = node.entries.get(p)
            if nxt is None:
                nxt = node.entries[p] = self._new("d", 0o755)
            while nxt.kind == "l":
                nxt, *_ = self._walk(path[: path.index(p) + len(p)], True)
            node = nxt
        name = parts[-1]
        if spec is None:
            node.entries.setdefault(name, self._new("d", 0o755))
        elif isinstance(spec, dict):
            ln = self._new("l", 0o777)
            ln.target = spec["link"]
            node.entries[name] = ln
        else:
            f = self._new("f", 0o644)
            f.data[:] = spec.encode("utf-8") if isinstance(spec, str) else spec
            node.entries[name] = f

    def exists(self, path):
        try:
            return self._walk(path, True)[0] is not None
        except OSError:
            return False

    def snapshot(self, prefix=MOUNT):
        """{path: bytes | None for dir | ("link", t)} of everything below prefix"""
        out = {}
        try:
            node, *_ = self._walk(prefix, True)
        except OSError:
            return out
        if node is None:
            return out

        def rec(p, n):
            if n.kind == "f":
                out[p] = bytes(n.data)
            elif n.kind == "l":
                out[p] = ("link", n.target)
            else:
                if p != prefix:
                    out[p] = None
                for name in sorted(n.entries):
                    rec(p + "/" + name, n.entries[name])

        rec(prefix, node)
        return out

    def files(self, prefix=MOUNT):
        return {k: v for k, v in self.snapshot(prefix).items() if isinstance(v, bytes)}

    def read(self, path):
        try:
            node, *_ = self._walk(path, True)
        except OSError:
            return None
        return None if node is None or node.kind != "f" else bytes(node.data)

    def mode(self, path):
        try:
            node, *_ = self._walk(path, True)
        except OSError:
            return None
        return node and node.mode

    def remove(self, path):
        node, parent, name = self._walk(path, False)
        if node is not None:
            del parent.entries[name]

    def used(self):
        seen = set()
        tot = 0

        def rec(n):
            nonlocal tot
            if n.kind == "f" and n.ino not in seen:
                seen.add(n.ino)
                tot += len(n.data)
            elif n.kind == "d":
                for c in n.entries.values():
                    rec(c)

        rec(self.root)
        return tot

    # -- path resolution ---------------------------------------------------
    def _split(self, path):
        path = self.norm(path)
        if path == MOUNT:
            return []
        return [p for p in path[len(MOUNT) + 1 :].split("/") if p]

    def norm(self, path):
        if not path.startswith("/"):
            path = self.cwd + "/" + path
        # lexical normalisation of "." and ".." (no symlinked parents are generated)
        out = []
        for p in path.split("/"):
            if p in ("", "."):
                continue
            if p == "..":
                if out:
                    out.pop()
                continue
            out.append(p)
        return "/" + "/".join(out)

    def _walk(self, path, follow, depth=0):
        """-> (node | None, parent | None, name)"""
        if depth > 20:
            raise oserr(E.ELOOP, path)
        parts = self._split(path)
        if not parts:
            return self.root, None, ""
        node = self.root
        for i, p in enumerate(parts):
            if node.kind != "d":
                raise oserr(E.ENOTDIR, path)
            if not node.mode & 0o100:
                raise oserr(E.EACCES, path)
            if len(p.encode("utf-8", "surrogateescape")) > 255:
                raise oserr(E.ENAMETOOLONG, path)
            nxt = node.entries.get(p)
            last = i == len(parts) - 1
            if nxt is not None and nxt.kind == "l" and (follow or not last):
                base = MOUNT + "".join("/" + q for q in parts[:i])
                tgt = nxt.target if nxt.target.startswith("/") else base + "/" + nxt.target
                rest = "".join("/" + q for q in parts[i + 1 :])
                return self._walk(self.norm(tgt + rest), follow, depth + 1)
            if last:
                return nxt, node, p
            if nxt is None:
                raise oserr(E.ENOENT, path)
            node = nxt

    # -- steps ---------------------------------------------------------------
    def canon(self, path):
        """Name of a path in logs and fault plans: all temporary files of a directory share one."""
        if not isinstance(path, str) or path in self.names:
            return path
        d, _, b = path.rpartition("/")
        if len(b) > 120:
            return d + "/<long>"
        if _TMPNAME.search(b):
            return d + "/<tmp>"
        return path

    @property
    def full_hits(self):
        return sum(n for k, n in self.fired.items() if k.startswith("diskfull"))

    def hit(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def step(self, kind, path, detail=None):
        """One system call is about to happen. Returns a fault action or None."""
        if self.quiet:
            return None
        if self.dead:
            raise SimCrash
        if self.scheduler is not None:
            self.scheduler.point(kind, path)
            if self.dead:
                raise SimCrash
        self.steps += 1
        self.clock += 0.001
        if self.steps > self.max_steps:
            raise Hang(f"still running after {self.max_steps} system calls, at {kind} {path}")
        path = self.canon(path)
        key = (self.op, kind, path)
        nth = self.counts.get(key, 0)
        self.counts[key] = nth + 1
        if self.keep_log:
            self.log.append((self.op, kind, path, nth, detail))
        act = None
        for i, f in enumerate(self.faults):
            if f.get("op", self.op) != self.op:
                continue
            if f["kind"] != kind and f["kind"] != "*":
                continue
            if f.get("path") is not None and f["path"] != path:
                continue
            if "under" in f and not path.startswith(f["under"]):
                continue
            if f.get("sticky"):
                if nth < f.get("nth", 0):
                    continue
            elif "nth" in f and f["nth"] != nth:
                continue
            if f.get("once") and i in self.fired_faults:
                continue
            self.fired_faults.append(i)
            self.hit(f"{f['action']}:{kind}" + (f":{f['errno']}" if "errno" in f else ""))
            a = f["action"]
            if a == "env":
                self.env(f["do"])
                continue
            act = f
            break
        if act is None:
            return None
        a = act["action"]
        if a == "errno" and "partial" not in act:
            raise OSError(getattr(E, act["errno"]), os.strerror(getattr(E, act["errno"])), path)
        if a == "interrupt":
            if act.get("after"):
                self.pending = KeyboardInterrupt
                return None
            raise KeyboardInterrupt
        if a == "nomem":
            raise MemoryError
        if a == "crash" and "partial" not in act:
            self.kill()
        return act

    def after(self):
        """Back in Python code after a system call: pending signals are handled."""
        if self.pending is not None and not self.quiet:
            p, self.pending = self.pending, None
            raise p

    def kill(self):
        self.dead = True
        raise SimCrash

    def env(self, do):
        """Another process on this machine acts, atomically, right now."""
        k = do["do"]
        self.quiet += 1
        try:
            if k == "replace":  # rename(2) of a new inode over the path
                self.put(do["path"], bytes.fromhex(do["hex"]) if "hex" in do else do["data"])
            elif k == "rewrite":  # truncate and write the same inode in place
                node, *_ = self._walk(do["path"], True)
                if node is not None and node.kind == "f":
                    node.data[:] = bytes.fromhex(do["hex"]) if "hex" in do else do["data"].encode()
            elif k in ("remove", "dir"):
                self.remove(do["path"])
                if k == "dir":
                    self.put(do["path"], None)
            else:
                raise HarnessError(f"env {do}")
        finally:
            self.quiet -= 1

    def revive(self):
        """A new process starts on the same disk."""
        self.dead = False
        self.pending = None
        self.gen += 1
        self.fds.clear()

    def mutated(self, path):
        if self.watch is not None and not self.quiet:
            self.watch(self, path)

    # -- system calls ----------------------------------------------------------
    def sys_open(self, path, flags, mode=0o777):
        name = self.norm(path)
        if flags & os.O_EXCL:
            # A signal that arrived during an earlier call that failed is by now handled:
            # it can't come between making a temporary file and taking note of its name.
            self.after()
        self.step("open", name, flags & (os.O_ACCMODE | os.O_CREAT | os.O_TRUNC | os.O_EXCL))
        node, parent, last = self._walk(path, not (flags & os.O_NOFOLLOW))
        acc = flags & os.O_ACCMODE
        if node is None:
            if not flags & os.O_CREAT:
                raise oserr(E.ENOENT, path)
            if path.endswith("/"):
                raise oserr(E.EISDIR, path)
            if not parent.mode & 0o200:
                raise oserr(E.EACCES, path)
            node = self._new("f", mode & ~0o022 & 0o777)
            parent.entries[last] = node
            self.mutated(name)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(E.EEXIST, path)
            if node.kind == "l":
                raise oserr(E.ELOOP, path)
            if node.kind == "d":
                if acc != os.O_RDONLY or flags & os.O_CREAT:
                    raise oserr(E.EISDIR, path)
            else:
                if flags & os.O_DIRECTORY or path.endswith("/"):
                    raise oserr(E.ENOTDIR, path)
                if acc != os.O_WRONLY and not node.mode & 0o400:
                    raise oserr(E.EACCES, path)
                if acc != os.O_RDONLY and not node.mode & 0o200:
                    raise oserr(E.EACCES, path)
                if flags & os.O_TRUNC and acc != os.O_RDONLY and node.data:
                    del node.data[:]
                    node.mtime = self.clock
                    self.mutated(name)
        fd = self.next_fd
        self.next_fd += 1
        of = OpenFile(self, fd, node, name, flags)
        self.fds[fd] = of
        return of

    def of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise oserr(E.EBADF)
        return of

    def sys_stat(self, path, follow=True):
        if isinstance(path, int):
            of = self.of(path)
            self.step("fstat", of.name)
            return self._st(of.node)
        name = self.norm(path)
        self.step("stat" if follow else "lstat", name)
        node, *_ = self._walk(path, follow)
        if node is None:
            raise oserr(E.ENOENT, path)
        if path.endswith("/") and node.kind == "f":
            raise oserr(E.ENOTDIR, path)
        return self._st(node)

    def _st(self, n):
        fmt = {"f": S.S_IFREG, "d": S.S_IFDIR, "l": S.S_IFLNK}[n.kind]
        size = len(n.data) if n.kind == "f" else len(n.target or "") if n.kind == "l" else 4096
        t = int(n.mtime)
        return os.stat_result((fmt | n.mode, n.ino, 77, n.nlink, os.getuid(), os.getgid(), size, t, t, t))

    def sys_listdir(self, path):
        name = self.norm(path)
        self.step("scandir", name)
        node, *_ = self._walk(path, True)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.kind != "d":
            raise oserr(E.ENOTDIR, path)
        if not node.mode & 0o400:
            raise oserr(E.EACCES, path)
        names = sorted(node.entries)
        if self.list_seed == "sorted":
            pass
        elif self.list_seed == "reversed":
            names.reverse()
        else:
            random.Random(f"{self.list_seed}:{name}").shuffle(names)
        return names

    def sys_mkdir(self, path, mode=0o777):
        name = self.norm(path)
        self.step("mkdir", name)
        node, parent, last = self._walk(path, False)
        if node is not None:
            raise oserr(E.EEXIST, path)
        if not parent.mode & 0o200:
            raise oserr(E.EACCES, path)
        if self.capacity is not None and self.used() >= self.capacity:
            self.hit("diskfull:mkdir")
            raise oserr(E.ENOSPC, path)
        parent.entries[last] = self._new("d", mode & 0o755)
        self.mutated(name)

    def sys_unlink(self, path):
        name = self.norm(path)
        self.step("unlink", name)
        node, parent, last = self._walk(path, False)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.kind == "d":
            raise oserr(E.EISDIR, path)
        if not parent.mode & 0o200:
            raise oserr(E.EACCES, path)
        del parent.entries[last]
        node.nlink -= 1
        self.mutated(name)

    def sys_rmdir(self, path):
        name = self.norm(path)
        self.step("rmdir", name)
        node, parent, last = self._walk(path, False)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.kind != "d":
            raise oserr(E.ENOTDIR, path)
        if node.entries:
            raise oserr(E.ENOTEMPTY, path)
        del parent.entries[last]
        self.mutated(name)

    def sys_rename(self, src, dst):
        sname, dname = self.norm(src), self.norm(dst)
        self.step("rename", sname, dname)
        node, parent, last = self._walk(src, False)
        if node is None:
            raise oserr(E.ENOENT, src, dst)
        n2, p2, l2 = self._walk(dst, False)
        if not parent.mode & 0o200 or not p2.mode & 0o200:
            raise oserr(E.EACCES, src, dst)
        if n2 is not None and n2 is not node:
            if n2.kind == "d":
                if node.kind != "d":
                    raise oserr(E.EISDIR, src, dst)
                if n2.entries:
                    raise oserr(E.ENOTEMPTY, src, dst)
            elif node.kind == "d":
                raise oserr(E.ENOTDIR, src, dst)
        if n2 is not node:
            del parent.entries[last]
            p2.entries[l2] = node
        self.mutated(dname)

    def sys_link(self, src, dst):
        self.step("link", self.norm(src), self.norm(dst))
        node, *_ = self._walk(src, False)
        if node is None:
            raise oserr(E.ENOENT, src, dst)
        n2, p2, l2 = self._walk(dst, False)
        if n2 is not None:
            raise oserr(E.EEXIST, src, dst)
        p2.entries[l2] = node
        node.nlink += 1
        self.mutated(self.norm(dst))

    def sys_symlink(self, target, dst):
        self.step("symlink", self.norm(dst), target)
        n2, p2, l2 = self._walk(dst, False)
        if n2 is not None:
            raise oserr(E.EEXIST, target, dst)
        ln = self._new("l", 0o777)
        ln.target = target
        p2.entries[l2] = ln
        self.mutated(self.norm(dst))

    def sys_readlink(self, path):
        self.step("readlink", self.norm(path))
        node, *_ = self._walk(path, False)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.kind != "l":
            raise oserr(E.EINVAL, path)
        return node.target

    def sys_chmod(self, path, mode, follow=True):
        if isinstance(path, int):
            of = self.of(path)
            self.step("chmod", of.name)
            node = of.node
        else:
            self.step("chmod", self.norm(path))
            node, *_ = self._walk(path, follow)
            if node is None:
                raise oserr(E.ENOENT, path)
        node.mode = mode & 0o7777

    def sys_utime(self, path, *a, **k):
        name = self.of(path).name if isinstance(path, int) else self.norm(path)
        self.step("utime", name)
        if not isinstance(path, int):
            node, *_ = self._walk(path, True)
            if node is None:
                raise oserr(E.ENOENT, path)

    def sys_access(self, path, mode):
        self.step("access", self.norm(path))
        try:
            node, *_ = self._walk(path, True)
        except OSError:
            return False
        if node is None:
            return False
        return (
            (not mode & os.R_OK or bool(node.mode & 0o400))
            and (not mode & os.W_OK or bool(node.mode & 0o200))
            and (not mode & os.X_OK or bool(node.mode & 0o100))
        )


class OpenFile:
    """An open file description (one per fd; dup is not modelled)."""

    def __init__(self, world, fd, node, name, flags):
        self.world, self.fd, self.node, self.name, self.flags = world, fd, node, name, flags
        self.pos = 0
        self.gen = world.gen
        self.closed = False

    def _live(self):
        if self.world.dead or self.gen != self.world.gen:
            raise SimCrash
        if self.closed:
            raise oserr(E.EBADF)

    def _retry(self, fn, arg):
        # PEP 475: FileIO, os.read() and os.write() do not show EINTR to their callers
        for _ in range(100):
            try:
                return fn(arg)
            except InterruptedError:
                pass
        raise HarnessError("EINTR forever")

    def read(self, n):
        return self._retry(self._read, n)

    def write(self, b):
        return self._retry(self._write, b)

    def _read(self, n):
        self._live()
        if self.node.kind == "d":
            raise oserr(E.EISDIR)
        if self.flags & os.O_ACCMODE == os.O_WRONLY:
            raise oserr(E.EBADF)
        avail = len(self.node.data) - self.pos
        act = self.world.step("read", self.name, (min(n, max(avail, 0)), self.pos))
        if act is not None:
            a = act["action"]
            if a == "short":
                n = max(1, min(n, act.get("n", 1)))
            elif a in ("errno", "crash"):  # with "partial"
                raise OSError(E.EIO, os.strerror(E.EIO)) if a == "errno" else HarnessError(act)
        avail = max(len(self.node.data) - self.pos, 0)
        out = bytes(self.node.data[self.pos : self.pos + min(n, avail)])
        self.pos += len(out)
        return out

    def _write(self, b):
        self._live()
        if self.flags & os.O_ACCMODE == os.O_RDONLY:
            raise oserr(E.EBADF)
        b = bytes(b)
        w = self.world
        act = w.step("write", self.name, len(b))
        n = len(b)
        after = None
        if act is not None:
            a = act["action"]
            if a == "short":
                n = max(1, min(n, act.get("n", 1)))
            elif a in ("errno", "crash"):
                n = min(n, int(act["partial"] * len(b)) if act["partial"] <= 1 else act["partial"])
                after = act
        if w.capacity is not None:
            pos = len(self.node.data) if self.flags & os.O_APPEND else self.pos
            grow = max(0, pos + n - len(self.node.data))
            free = w.capacity - w.used()
            if grow > free:
                n = n - (grow - max(free, 0))
                if n <= 0:
                    w.hit("diskfull:write")
                    raise oserr(E.ENOSPC)
        if n:
            if self.flags & os.O_APPEND:
                self.pos = len(self.node.data)
            if self.pos > len(self.node.data):
                self.node.data.extend(b"\0" * (self.pos - len(self.node.data)))
            self.node.data[self.pos : self.pos + n] = b[:n]
            self.pos += n
            self.node.mtime = w.clock
            w.mutated(self.name)
        if after is not None:
            if after["action"] == "crash":
                w.kill()
            if n == 0 or True:
                # the kernel reports a short count first; the retry gets the error
                if n:
                    self._pending = getattr(E, after["errno"])
                    w.faults.append(
                        {"op": w.op, "kind": "write", "path": self.name, "sticky": True,
                         "nth": w.counts[(w.op, "write", self.name)], "action": "errno",
                         "errno": after["errno"], "derived": True}
                    )
                    return n
                raise OSError(getattr(E, after["errno"]), os.strerror(getattr(E, after["errno"])))
        return n

    def truncate(self, size):
        self._live()
        if self.flags & os.O_ACCMODE == os.O_RDONLY:
            raise oserr(E.EINVAL)
        self.world.step("ftruncate", self.name, size)
        d = self.node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        self.world.mutated(self.name)

    def fsync(self):
        self._live()
        self.world.step("fsync", self.name)

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.gen != self.world.gen or self.world.dead:
            return
        self.world.fds.pop(self.fd, None)
        if self.flags & os.O_ACCMODE != os.O_RDONLY:
            self.world.step("close", self.name)


class SimRaw(io.RawIOBase):
    """FileIO look-alike on an OpenFile."""

    def __init__(self, of, mode, name, closefd=True):
        self._of = of
        self.mode = mode
        self.name = name
        self._closefd = closefd
        self._r = of.flags & os.O_ACCMODE != os.O_WRONLY
        self._w = of.flags & os.O_ACCMODE != os.O_RDONLY

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._of.fd

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        try:
            data = self._of.read(len(b))
        except OSError as e:
            if e.filename is not None:
                raise OSError(e.errno, e.strerror) from None
            raise
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        try:
            n = self._of.write(b)
            if self._of.world.pending is not None:
                self._of.world.after()
            return n
        except OSError as e:
            if e.filename is not None:
                raise OSError(e.errno, e.strerror) from None
            raise

    def seek(self, pos, whence=0):
        of = self._of
        if whence == 0:
            new = pos
        elif whence == 1:
            new = of.pos + pos
        else:
            new = len(of.node.data) + pos
        if new < 0:
            raise oserr(E.EINVAL)
        of.pos = new
        return new

    def tell(self):
        return self._of.pos

    def truncate(self, size=None):
        if size is None:
            size = self._of.pos
        self._of.truncate(size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd:
                    self._of.close()


# -- seam ---------------------------------------------------------------------

_active: World | None = None


def activate(w: World | None):
    global _active
    _active = w


def active() -> World | None:
    return _active


def _ours(path):
    """The string path if it belongs to the simulated disk, else None."""
    w = _active
    if w is None:
        return None
    if isinstance(path, int):
        return path if path >= FD0 else None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith("/"):
        n = os.path.normpath(p)
        return p if n == MOUNT or n.startswith(MOUNT + "/") else None
    if p == "":
        return None
    return p if w.norm(p).startswith(MOUNT + "/") or w.norm(p) == MOUNT else None


def _is_bytes(path):
    try:
        return isinstance(os.fspath(path), bytes)
    except TypeError:
        return False


def _refuse(what, path):
    _active.escapes.append(f"{what} {path!r}")
    raise PermissionError(E.EACCES, "simulator: write outside the simulated disk refused", str(path))


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = _active
    p = None if w is None else _ours(file)
    if p is None:
        if w is not None and not isinstance(file, int) and any(c in mode for c in "wax+"):
            if str(file) not in ("/dev/null",):
                _refuse("open", file)
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    ms = set(mode)
    if ms - set("rwaxbt+") or len(mode) > len(ms) or sum(c in ms for c in "rwax") != 1:
        raise ValueError(f"invalid mode: {mode!r}")
    binary = "b" in ms
    if binary and "t" in ms:
        raise ValueError("can't have text and binary mode at once")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    plus = "+" in ms
    if "r" in ms:
        flags = os.O_RDWR if plus else os.O_RDONLY
    else:
        flags = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT
        flags |= os.O_TRUNC if "w" in ms else os.O_EXCL if "x" in ms else os.O_APPEND
    flags |= os.O_CLOEXEC
    if isinstance(p, int):
        of = w.of(p)
    elif opener is not None:
        of = w.of(opener(p, flags))
    else:
        of = w.sys_open(p, flags, 0o666)
    if w.pending is not None:
        of.close()
        w.after()
    if of.node.kind == "d":
        of.close()
        raise oserr(E.EISDIR, p)
    if "a" in ms:
        of.pos = len(of.node.data)
    raw = SimRaw(of, mode.replace("t", ""), file if not isinstance(p, int) else p, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = w.bufsize if buffering in (-1, 1) else buffering
    if plus:
        buf = io.BufferedRandom(raw, bs)
    elif "r" in ms:
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(
        buf, encoding if encoding not in (None, "locale") else w.encoding, errors, newline, buffering == 1
    )
    text.mode = mode
    return text


class SimDirEntry:
    __slots__ = ("name", "path", "_w")

    def __init__(self, w, dir_, name):
        self._w = w
        self.name = name
        self.path = os.path.join(dir_, name)

    def __fspath__(self):
        return self.path

    def _node(self, follow):
        # readdir's d_type: no system call unless it is a symlink to be followed
        w = self._w
        try:
            n, *_ = w._walk(self.path, False)
        except OSError:
            return None
        if n is not None and n.kind == "l" and follow:
            w.step("stat", w.norm(self.path))
            try:
                n, *_ = w._walk(self.path, True)
            except OSError:
                return None
        return n

    def is_dir(self, *, follow_symlinks=True):
        n = self._node(follow_symlinks)
        return n is not None and n.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        n = self._node(follow_symlinks)
        return n is not None and n.kind == "f"

    def is_symlink(self):
        n = self._node(False)
        return n is not None and n.kind == "l"

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._w.sys_stat(self.path, follow_symlinks)

    def inode(self):
        return self._node(False).ino

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"


class SimScandir:
    def __init__(self, w, path, names):
        self._it = iter([SimDirEntry(w, path, n) for n in names])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _no_dirfd(k):
    for name in ("dir_fd", "src_dir_fd", "dst_dir_fd"):
        if k.pop(name, None) is not None:
            raise HarnessError("dir_fd on the simulated disk is not modelled")
    return k


def _wrap(name, sim, mutating=False):
    real = getattr(os, name, None)
    if real is None:
        return
    _real[name] = real

    def call(path=None, *a, **k):
        w = _active
        if w is None:
            return real(path, *a, **k) if path is not None else real(*a, **k)
        if path is None:
            path = k.pop("path", k.pop("src", "."))
        p = _ours(path)
        if p is None:
            if mutating and not isinstance(path, int):
                _refuse(name, path)
            return real(path, *a, **k)
        r = sim(w, p, path, *a, **_no_dirfd(k))
        if w.pending is not None:
            w.after()
        return r

    call.__name__ = name
    call.__qualname__ = name
    setattr(os, name, call)
    import posix

    if hasattr(posix, name):
        setattr(posix, name, call)


def _two(name, sim):
    real = getattr(os, name)
    _real[name] = real

    def call(src, dst, **k):
        w = _active
        if w is None:
            return real(src, dst, **k)
        a, b = _ours(src), _ours(dst)
        if a is None and b is None:
            _refuse(name, f"{src} -> {dst}")
        if (a is None and name != "symlink") or b is None:
            raise oserr(E.EXDEV, str(src), str(dst))
        k.pop("follow_symlinks", None)
        k.pop("target_is_directory", None)
        _no_dirfd(k)
        r = sim(w, os.fspath(src), os.fspath(dst))
        if w.pending is not None:
            w.after()
        return r

    call.__name__ = name
    setattr(os, name, call)
    import posix

    setattr(posix, name, call)


def install():
    """Install the seam once per process, before the code under test is imported."""
    if _real:
        return
    import posix

    _real["open"] = io.open
    builtins.open = sim_open
    io.open = sim_open

    def s_open(w, p, path, flags, mode=0o777):
        if flags & getattr(os, "O_TMPFILE", 0) == getattr(os, "O_TMPFILE", -1):
            raise oserr(E.EOPNOTSUPP, path)
        return w.sys_open(p, flags, mode).fd

    real_os_open = os.open
    _real["os_open"] = real_os_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        w = _active
        p = None if w is None else _ours(path)
        if p is None:
            if w is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                _refuse("os.open", path)
            return real_os_open(path, flags, mode, dir_fd=dir_fd)
        if dir_fd is not None:
            raise HarnessError("dir_fd")
        fd = s_open(w, p, path, flags, mode)
        if w.pending is not None:
            w.after()
        return fd

    os.open = os_open
    posix.open = os_open

    _wrap("stat", lambda w, p, path, *, follow_symlinks=True: w.sys_stat(p, follow_symlinks))
    _wrap("lstat", lambda w, p, path: w.sys_stat(p, False))
    _wrap("fstat", lambda w, p, path: w.sys_stat(p))
    _wrap("scandir", lambda w, p, path: SimScandir(w, os.fspath(path) if path is not None else ".", w.sys_listdir(p)))
    _wrap("listdir", lambda w, p, path: w.sys_listdir(p))
    _wrap("mkdir", lambda w, p, path, mode=0o777: w.sys_mkdir(p, mode), True)
    _wrap("unlink", lambda w, p, path: w.sys_unlink(p), True)
    _wrap("remove", lambda w, p, path: w.sys_unlink(p), True)
    _wrap("rmdir", lambda w, p, path: w.sys_rmdir(p), True)
    _wrap("readlink", lambda w, p, path: w.sys_readlink(p))
    _wrap("chmod", lambda w, p, path, mode, *, follow_symlinks=True: w.sys_chmod(p, mode, follow_symlinks), True)
    _wrap("fchmod", lambda w, p, path, mode: w.sys_chmod(p, mode))
    _wrap("chown", lambda w, p, path, *a, follow_symlinks=True: None, True)
    _wrap("fchown", lambda w, p, path, *a: None)
    _wrap("utime", lambda w, p, path, *a, **k: w.sys_utime(p), True)
    _wrap("access", lambda w, p, path, mode, **k: w.sys_access(p, mode))

    def s_truncate(w, p, path, length):
        of = w.of(p) if isinstance(p, int) else w.sys_open(p, os.O_WRONLY)
        of.truncate(length)
        if not isinstance(p, int):
            of.close()

    _wrap("truncate", s_truncate, True)
    _wrap("ftruncate", lambda w, p, path, length: w.of(p).truncate(length))
    _wrap("fsync", lambda w, p, path: w.of(p).fsync())
    _wrap("fdatasync", lambda w, p, path: w.of(p).fsync())
    _wrap("close", lambda w, p, path: w.of(p).close())
    _wrap("read", lambda w, p, path, n: w.of(p).read(n))
    _wrap("write", lambda w, p, path, b: w.of(p).write(b))
    _wrap("isatty", lambda w, p, path: False)
    _wrap("set_inheritable", lambda w, p, path, v: None)

    def s_lseek(w, p, path, pos, how):
        return SimRaw(w.of(p), "rb", "", False).seek(pos, how)

    _wrap("lseek", s_lseek)
    _wrap("listxattr", lambda w, p, path, **k: [])
    _wrap("chdir", lambda w, p, path: setattr(w, "cwd", w.norm(p)))

    _two("rename", lambda w, a, b: w.sys_rename(a, b))
    _two("replace", lambda w, a, b: w.sys_rename(a, b))
    _two("link", lambda w, a, b: w.sys_link(a, b))
    _two("symlink", lambda w, a, b: w.sys_symlink(a, b))

    real_sendfile = os.sendfile

    def sendfile(out_fd, in_fd, offset, count, *a, **k):
        w = _active
        if w is None or (out_fd < FD0 and in_fd < FD0):
            return real_sendfile(out_fd, in_fd, offset, count, *a, **k)
        src, dst = w.of(in_fd), w.of(out_fd)
        src.pos = offset
        b = src.read(min(count, 1 << 20))
        return dst.write(b) if b else 0

    os.sendfile = sendfile
    posix.sendfile = sendfile

    real_getcwd = os.getcwd

    def getcwd():
        return real_getcwd() if _active is None else _active.cwd

    os.getcwd = getcwd
    posix.getcwd = getcwd

    try:
        import fcntl

        for fn in ("flock", "lockf"):
            real = getattr(fcntl, fn)

            def lock(fd, *a, _real=real, _fn=fn, **k):
                w = _active
                n = fd if isinstance(fd, int) else fd.fileno()
                if w is None or n < FD0:
                    return _real(fd, *a, **k)
                return w_flock(w, n, a[0])

            setattr(fcntl, fn, lock)
    except ImportError:
        pass

    # capability sets hold the originals
    for s in ("supports_fd", "supports_follow_symlinks", "supports_dir_fd", "supports_effective_ids"):
        cur = getattr(os, s)
        for n in list(_real):
            if _real[n] in cur and hasattr(os, n):
                cur.add(getattr(os, n))

    real_time, real_time_ns = time.time, time.time_ns
    time.time = lambda: real_time() if _active is None else _active.clock
    time.time_ns = lambda: real_time_ns() if _active is None else int(_active.clock * 1e9)

    real_urandom = os.urandom
    os.urandom = lambda n: real_urandom(n) if _active is None else _det_bytes(n)
    real_getpid = os.getpid
    os.getpid = lambda: real_getpid() if _active is None else 4242 + _active.gen

    import tempfile

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            w = _active
            if w is None:
                return real_urandom(6).hex()
            w._tmp = getattr(w, "_tmp", 0) + 1
            return f"t{w._tmp:06d}"

    tempfile._name_sequence = Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    sys.unraisablehook = lambda *a: None


def _det_bytes(n):
    w = _active
    w._rnd = getattr(w, "_rnd", None) or random.Random(99)
    return w._rnd.randbytes(n)


def w_flock(w, fd, op):
    """Advisory locks: blocking waits are scheduling points."""
    import fcntl

    of = w.of(fd)
    locks = w.__dict__.setdefault("locks", {})
    w.step("flock", of.name, op)
    key = of.node.ino
    holders = {f for f in locks.get(key, {}) if f in w.fds}
    if op & fcntl.LOCK_UN:
        locks.get(key, {}).pop(fd, None)
        return
    ex = bool(op & fcntl.LOCK_EX)
    spins = 0
    while True:
        holders = {f: e for f, e in locks.get(key, {}).items() if f in w.fds and f != fd}
        if not holders or (not ex and not any(holders.values())):
            break
        if op & fcntl.LOCK_NB:
            raise oserr(E.EWOULDBLOCK, of.name)
        spins += 1
        if spins > 100000:
            raise HarnessError("flock: deadlock")
        w.step("flock-wait", of.name)
    locks.setdefault(key, {})[fd] = ex
