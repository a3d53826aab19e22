"""tools/trybugs.py DEFS.py [NAME...]: apply trial bugs to scratch copies of /repo and report whether the tests
and the check of the property named catch them. DEFS.py defines BUGS = {name: (property, [(file under python/moz/l10n, old, new)])}."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = runpy.run_path(sys.argv[1])["BUGS"]
for name in sys.argv[2:] or bugs:
    prop, edits = bugs[name]
    d = tempfile.mkdtemp(prefix="try.")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        r = d + "/repo"
        ok = True
        for f, old, new in edits:
            p = os.path.join(r, "python/moz/l10n", f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(name, f"edit of {f} matches {s.count(old)} times: {old[:60]!r}")
                ok = False
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        if not ok:
            continue
        env = dict(os.environ, PYTHONPATH=r + "/python", PYTHONDONTWRITEBYTECODE="1")
        x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--basetemp", d + "/t", "tests"], cwd=r + "/python", env=env, capture_output=True, text=True)
        if x.returncode:
            print(name, "TESTS FAIL", x.stdout[-300:].replace("\n", " | "))
            continue
        env = dict(os.environ, VP_REPO=r, VP_NOEVIDENCE="1")
        for c in prop.split():
            x = subprocess.run([sys.executable, HERE + "/run.py", "check", c], env=env, capture_output=True, text=True)
            what = next((ln for ln in x.stdout.split("\n") if ln.startswith(c + " ")), x.stdout[-300:])
            print(name, c, {0: "MISSED", 1: "caught"}.get(x.returncode, f"exit {x.returncode}"), what[:160], flush=True)
    finally:
        shutil.rmtree(d)
