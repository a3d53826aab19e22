"""Process start-up: install the seam first, then import the code under test."""
from __future__ import annotations

import os
import sys

REPO = os.environ.get("VP_REPO", "/repo")
PKG = os.path.join(REPO, "python")
sys.dont_write_bytecode = True
if PKG not in sys.path:
    sys.path.insert(0, PKG)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from sim import vfs  # noqa: E402

vfs.install()
from sim import locks  # noqa: E402

locks.install()

import moz.l10n  # noqa: E402
import moz.l10n.bin  # noqa: E402
import moz.l10n.bin.build  # noqa: E402

_got = os.path.realpath(moz.l10n.bin.build.__file__)
if not _got.startswith(os.path.realpath(PKG) + os.sep):
    raise SystemExit(f"harness error: moz.l10n imported from {_got}, not from {PKG}")

import logging  # noqa: E402


class _LastResort(logging.Handler):
    """Shows warnings of simulated processes only, not those of parsing done by a check itself."""

    def emit(self, record):
        if sys.stderr is not sys.__stderr__:
            sys.stderr.write(self.format(record) + "\n")


logging.lastResort = _LastResort(logging.WARNING)
