"""Builds Migrate objects, with the public helpers, from plain data."""
from __future__ import annotations

import os
from copy import deepcopy

from . import boot  # noqa: F401
from moz.l10n.migrate import Migrate, copy, entry, get_pattern
from moz.l10n.model import Expression, Markup, PatternMessage, VariableRef

SCRIPT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "migration_script.py")
CURRENT: list = []
RAISE = {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "StopIteration": StopIteration,
         "OSError": OSError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


def mutate(ph):
    """Documented: "It may mutate each placeholder directly"."""
    if isinstance(ph, Expression):
        if isinstance(ph.arg, VariableRef):
            ph.arg = VariableRef(ph.arg.name + "_new")
        elif isinstance(ph.arg, str):
            ph.arg += "X"
        ph.attributes["mutated"] = True
    elif isinstance(ph, Markup):
        ph.options["mutated"] = "yes"


REPLACE = {
    True: lambda ph: ph.replace("a, b", "a; b") if isinstance(ph, str) else None,
    "mutate": mutate,
    "drop": lambda ph: None if isinstance(ph, str) else "",
    "new": lambda ph: Expression(VariableRef("new")) if isinstance(ph, Expression) and isinstance(ph.arg, VariableRef) else None,
}


def fn(st):
    """The migration function for one step."""
    k = st["kind"]
    if k == "msg":
        after = {tuple(x) for x in st.get("after", ())}

        def f(res, ctx):
            msg = PatternMessage([st["text"]])
            return (msg, after) if after else msg

        return f
    if k == "copy" and st.get("pattern"):
        # as a migration function of a user's own would
        def h(res, ctx):
            res_ = ctx.get_resource(st["from"]) if st["from"] else res
            if res_ is None:
                return PatternMessage([st["default"]]) if st.get("default") else None
            kw = {x: st[x] for x in ("property", "variant") if st.get(x)}
            if st.get("default"):
                kw["default"] = [st["default"]]
            return PatternMessage(deepcopy(get_pattern(res_, *st["src"], **kw))), {tuple(st["src"])}

        return h
    if k == "copy":
        kw = {x: st[x] for x in ("property", "value_only", "variant") if st.get(x)}
        if st.get("replace"):
            kw["replace"] = REPLACE[st["replace"]]
        return copy(st["from"], tuple(st["src"]), **kw)
    if k == "entry":
        kw = {x: st[x] for x in ("allow_partial", "comment") if x in st}
        v = st.get("value")
        return entry(fn(v) if isinstance(v, dict) else v, {n: fn(p) if isinstance(p, dict) else p for n, p in (st.get("props") or {}).items()} or None, **kw)
    if k == "raise":
        def g(res, ctx):
            if ctx.locale in st["locales"]:
                raise RAISE[st["exc"]](st.get("text", "planned"))
            return PatternMessage([st["text"]])

        return g
    if k == "none":
        return lambda res, ctx: None
    if k == "bad":
        return lambda res, ctx: PatternMessage([st["text"], Markup("open", "bogus", {"x": VariableRef("y")}), Expression(VariableRef("v"), "nofunc", {"o": "p"})])
    raise AssertionError(k)


def build(mig):
    """[[ref_path, [step, ...]], ...] -> Migrate"""
    return Migrate({ref: {tuple(s["id"]) if len(s["id"]) > 1 or s.get("tuple") else s["id"][0]: fn(s) for s in steps} for ref, steps in mig})


def define(name):
    i = int(name.rsplit("_", 1)[1])
    for mig in CURRENT[i] if i < len(CURRENT) else ():
        build(mig)
