"""Run one moz-l10n command (or any callable) as a simulated process."""
from __future__ import annotations

import io
import logging
import sys
import traceback

from . import boot  # noqa: F401  (seam + import of the code under test)
from .vfs import HarnessError, SimCrash, World, activate, active

import click
from moz.l10n.bin import cli as main_cli


class Outcome:
    """What the user sees of one process: exit status, stdout, stderr."""

    def __init__(self):
        self.exit = None  # int, or "crash"
        self.exc = None  # exception that escaped, as "Type: text"
        self.exc_type = None
        self.out = ""
        self.err = ""
        self.value = None

    @property
    def crashed(self):
        return self.exit == "crash"

    def brief(self):
        d = {"exit": self.exit}
        if self.exc:
            d["exc"] = self.exc[:200]
        if self.out:
            d["out"] = self.out[:400]
        if self.err:
            d["err"] = self.err[:400]
        return d


def _reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)


def execute(world: World, fn, se=None) -> Outcome:
    """Run `fn` as the body of a process of the active world, to its end."""
    o = Outcome()
    try:
        o.value = fn()
        o.exit = 0
    except SystemExit as e:
        c = e.code
        if c is None:
            o.exit = 0
        elif isinstance(c, int):
            o.exit = c
        else:
            if se is not None:
                se.write(f"{c}\n")
            o.exit = 1
    except SimCrash:
        o.exit = "crash"
    except HarnessError:
        raise
    except KeyboardInterrupt:
        o.exit = 130
        o.exc_type = "KeyboardInterrupt"
        o.exc = "KeyboardInterrupt"
    except BaseException as e:  # noqa: BLE001
        o.exit = 1
        o.exc_type = type(e).__name__
        o.exc = f"{type(e).__name__}: {e}"
        world.quiet += 1  # linecache looks for source files
        o.tb = traceback.format_exc()
        world.quiet -= 1
        if isinstance(e, AttributeError) and "sim" in o.tb.split("\n")[-3]:
            raise HarnessError(o.tb)
    if world.dead:
        o.exit = "crash"
    return o


def run_callable(world: World, fn, *, capture=True) -> Outcome:
    prev = active()
    old = sys.stdout, sys.stderr
    so, se = io.StringIO(), io.StringIO()
    if capture:
        sys.stdout, sys.stderr = so, se
        _reset_logging()
    activate(world)
    try:
        o = execute(world, fn, se)
    finally:
        world.quiet += 1
        activate(prev)
        world.quiet -= 1
        if capture:
            sys.stdout, sys.stderr = old
            _reset_logging()
    o.out, o.err = so.getvalue(), se.getvalue()
    if world.dead:
        o.exit = "crash"
        world.revive()
    else:
        # process exit: open descriptors vanish; unflushed Python buffers are the
        # interpreter's business (CPython flushes them), so drop nothing here
        world.gen += 1
        world.pending = None
        world.fds.clear()
    return o


def run_cli(world: World, args, *, cwd=None) -> Outcome:
    if cwd is not None:
        world.cwd = cwd
    return run_callable(
        world, lambda: main_cli.main(args=list(args), prog_name="moz-l10n", standalone_mode=True)
    )


__all__ = ["Outcome", "run_cli", "run_callable", "click"]
