"""Choosing where and how to break a run, from the trace of the same run without faults."""
from __future__ import annotations

import os

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT

OPEN_R = ["EIO", "EACCES", "EMFILE", "ENOMEM", "ESTALE"]
OPEN_W = ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EDQUOT"]
WRITE = ["EIO", "ENOSPC", "EDQUOT", "EFBIG"]
META = ["EIO", "EACCES", "ENOSPC", "EROFS"]

MUTATING = {"open_w", "write", "close", "rename", "unlink", "mkdir", "chmod", "ftruncate", "link", "symlink", "fsync",
            "utime", "rmdir"}


def klass(ev):
    op, kind, path, nth, detail = ev
    if kind == "open":
        return "open_w" if isinstance(detail, int) and detail & WRITE_FLAGS else "open_r"
    return kind


def at(ev, **action):
    op, kind, path, nth, detail = ev
    return {"op": op, "kind": kind, "path": path, "nth": nth, **action}


def error_for(rng, ev):
    k = klass(ev)
    if k == "open_r":
        return at(ev, action="errno", errno=rng.choice(OPEN_R))
    if k == "open_w":
        return at(ev, action="errno", errno=rng.choice(OPEN_W))
    if k == "read":
        return at(ev, action="errno", errno="EIO")
    if k == "write":
        f = at(ev, action="errno", errno=rng.choice(WRITE))
        if rng.random() < 0.5:
            f["partial"] = round(rng.random(), 2)
        return f
    if k in ("stat", "lstat", "fstat", "scandir", "access", "readlink"):
        return at(ev, action="errno", errno=rng.choice(["EIO", "EACCES"]))
    return at(ev, action="errno", errno=rng.choice(META))


def crash_for(rng, ev):
    f = at(ev, action="crash")
    if ev[1] == "write" and rng.random() < 0.6:
        f["partial"] = round(rng.random(), 2)
    return f


def benign_for(rng, ev):
    """Faults which correct code does not notice."""
    if ev[1] in ("read", "write"):
        if rng.random() < 0.7:
            return at(ev, action="short", n=rng.choice([1, 2, 7, 64]))
        return at(ev, action="errno", errno="EINTR")
    return None


def plan(rng, log, *, allow=("errno", "crash", "interrupt", "benign", "nomem"), pred=None, weight=None, n=None):
    """A list of faults at events of `log` satisfying `pred`."""
    evs = [e for e in log if pred is None or pred(e)]
    if not evs:
        return []
    if weight is None:
        ws = [8 if klass(e) in MUTATING else 3 if klass(e) in ("open_r", "read") else 1 for e in evs]
    else:
        ws = [weight(e) for e in evs]
    if not any(ws):
        return []
    if n is None:
        n = rng.choice([1, 1, 1, 1, 2, 3])
    out = []
    for ev in rng.choices(evs, ws, k=n):
        r = rng.random()
        f = None
        if r < 0.38 and "errno" in allow:
            f = error_for(rng, ev)
        elif r < 0.68 and "crash" in allow:
            f = crash_for(rng, ev)
        elif r < 0.80 and "interrupt" in allow:
            f = at(ev, action="interrupt")
            # between creating a temporary file and storing its name nothing can be done about it
            if rng.random() < 0.5 and not (klass(ev) == "open_w" and "<tmp>" in ev[2]):
                f["after"] = True
        elif r < 0.86 and "nomem" in allow:
            f = at(ev, action="nomem")
        elif "benign" in allow:
            f = benign_for(rng, ev)
        if f is None and "errno" in allow:
            f = error_for(rng, ev)
        if f is None and "benign" in allow:
            f = benign_for(rng, ev)
        if f is None and "crash" in allow:
            f = crash_for(rng, ev)
        if f is not None:
            out.append(f)
    return out


def is_benign(f):
    return f["action"] == "short" or f.get("errno") == "EINTR"
