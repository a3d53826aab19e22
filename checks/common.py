"""Helpers shared by the checks."""
from __future__ import annotations

import random
import re
from posixpath import dirname, relpath

from sim import boot, gen  # noqa: F401
from sim.engine import Check, Stats, Violation
from sim.faults import MUTATING, at, is_benign, klass, plan
from sim.proc import Outcome, run_callable, run_cli
from sim.vfs import MOUNT, HarnessError, World

from moz.l10n.formats import Format, UnsupportedFormat
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, PatternMessage, Resource, SelectMessage
from moz.l10n.resource import parse_resource, serialize_resource

TOK = re.compile(r"(?<!C)V\d+[a-z]*?z")
COM = re.compile(r"C[A-Z]*\d+[a-z]*?z")


def content(f) -> bytes:
    """Bytes of a tree item of a scenario."""
    if "spec" in f:
        return gen.render(f["spec"]).encode("utf-8")
    if "hex" in f:
        return bytes.fromhex(f["hex"])
    return f["text"].encode("utf-8")


def hexed(b: bytes):
    try:
        t = b.decode("utf-8")
        return {"text": t}
    except UnicodeDecodeError:
        return {"hex": b.hex()}


def mkworld(sc, files=None) -> World:
    w = World(list_seed=sc.get("list_seed", 0), bufsize=sc.get("bufsize", 8192), encoding=sc.get("encoding", "utf-8"))
    for path, f in (files if files is not None else sc["files"]).items():
        if f is None or "link" in f:
            w.put(path, f)
        else:
            w.put(path, content(f))
            if "mode" in f:
                w._walk(path, True)[0].mode = f["mode"]
    if sc.get("at") and not w.exists(sc["at"]):
        w.put(sc["at"], None)
    return w


def settle(rng, sc, p=0.35, extra=()):
    """Perhaps give the command's paths relative to some directory of the tree."""
    if rng.random() < p:
        dirs = {MOUNT, "/sim/p", *extra}
        for f in sc["files"]:
            while f != MOUNT and len(f) > 1:
                f = dirname(f)
                dirs.add(f)
        sc["at"] = rng.choice(sorted(d for d in dirs if d.startswith(MOUNT) and not any(x.startswith(".") for x in d.split("/"))))


def argv(sc, args):
    at = sc.get("at")
    return [relpath(a, at) if at and a.startswith(MOUNT + "/") else a for a in args]


def cli(w, sc, args):
    """Run a command, with its paths given as the scenario says."""
    return run_cli(w, argv(sc, args), cwd=sc.get("at") or MOUNT)


def need(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)


def show(b):
    if b is None:
        return "(no file)"
    if isinstance(b, tuple):
        return f"(link to {b[1]})"
    s = b.decode("utf-8", "backslashreplace")
    return repr(s if len(s) < 400 else s[:250] + " ... " + s[-120:])


def diff(a: dict, b: dict, skip=()):
    """First difference of two snapshots."""
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        x, y = a.get(k, "absent"), b.get(k, "absent")
        if x != y:
            f = lambda v: v if v == "absent" else "(directory)" if v is None else show(v)  # noqa: E731
            return f"{k}: {f(x)} != {f(y)}"
    return None


def entries_of(res):
    """[(id, value, properties, meta)] of the messages of a resource, in order."""
    out = []
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                out.append((s.id + e.id, e.value, e.properties))
    return out


def plain(msg):
    """A message with its quoted literals written as the text they stand for."""

    def pattern(pat):
        out = []
        for x in pat:
            if isinstance(x, Expression) and isinstance(x.arg, str) and x.function is None and not x.attributes:
                x = x.arg
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        return out

    if isinstance(msg, PatternMessage):
        return PatternMessage(pattern(msg.pattern), declarations=msg.declarations)
    if isinstance(msg, SelectMessage):
        return SelectMessage(msg.declarations, msg.selectors, {k: pattern(v) for k, v in msg.variants.items()})
    return msg


def metas_of(res, top=True):
    """The metadata of a resource (unless not top), and of its sections and messages."""
    return [("", res.meta)] * top + [(s.id, s.meta) for s in res.sections] + [(s.id + e.id, e.meta) for s in res.sections for e in s.entries if isinstance(e, Entry)]


def describe(f, sc):
    return {k: v for k, v in f.items()}


_EXTRA_LISTS = [0, 1, 2, 3, "sorted", "reversed"]
_BUFS = [8192, 8192, 1, 7, 64, 512]


def env_noise(rng, sc):
    sc["list_seed"] = rng.choice(_EXTRA_LISTS)
    sc["bufsize"] = rng.choice(_BUFS)


def touched_paths(w: World, faults):
    return {faults[i].get("path") for i in w.fired_faults}


def hard_fired(w: World):
    """Indices of the fired faults that a correct program may notice."""
    return [i for i in w.fired_faults if not is_benign(w.faults[i]) and w.faults[i]["action"] != "env"]


def kinds_fired(w):
    return {w.faults[i]["action"] for i in w.fired_faults}
