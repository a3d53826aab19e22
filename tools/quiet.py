"""tools/quiet.py DEFS.py [NAME...] [-- CHECK...]: apply edits that keep the behaviour to scratch copies of /repo
and report every check that does not stay quiet on them.

DEFS.py defines EDITS = {name: [(file under python/moz/l10n, old, new)]}.
"""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = []
if "--" in args:
    i = args.index("--")
    checks, args = args[i + 1:], args[:i]
edits = runpy.run_path(args[0])["EDITS"]
if not checks:
    checks = subprocess.run([sys.executable, HERE + "/run.py", "list"], capture_output=True, text=True).stdout.split()
for name in args[1:] or edits:
    d = tempfile.mkdtemp(prefix="quiet.")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        r = d + "/repo"
        ok = True
        for f, old, new in edits[name]:
            p = os.path.join(r, "python/moz/l10n", f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(name, f"edit of {f} matches {s.count(old)} times: {old[:60]!r}")
                ok = False
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        if not ok:
            continue
        env = dict(os.environ, PYTHONPATH=r + "/python", PYTHONDONTWRITEBYTECODE="1")
        x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--basetemp", d + "/t", "tests"], cwd=r + "/python", env=env, capture_output=True, text=True)
        if "failed" in x.stdout or "error" in x.stdout:
            print(name, "TESTS FAIL", x.stdout[-600:])
            continue
        env = dict(os.environ, VP_REPO=r, VP_NOEVIDENCE="1")
        loud = []
        for c in checks:
            x = subprocess.run([sys.executable, HERE + "/run.py", "check", c], env=env, capture_output=True, text=True)
            if x.returncode:
                loud.append(c)
                print(name, c, "exit", x.returncode, (x.stdout + x.stderr)[:700].replace("\n", " | "), flush=True)
        print(name, "QUIET" if not loud else f"LOUD: {loud}", flush=True)
    finally:
        shutil.rmtree(d)
