"""tools/mkseed.py DEFS.py [ID...]: plant bugs: make seeded/ID from edits, and confirm them.

DEFS.py defines BUGS = {id: {"property", "needs", "breaks", "edits": [(file, old, new)], "demo": python source}}.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# Exits 0 if the behaviour is right, 1 if not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 3
/opt/venv/bin/python "$here/demo.py"
"""


def make(i, b):
    d = tempfile.mkdtemp(prefix="seed.")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        r = d + "/repo"
        for f, old, new in b["edits"]:
            p = os.path.join(r, "python/moz/l10n", f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return i, f"edit of {f} matches {s.count(old)} times: {old[:60]!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
        # the original lines
        out = os.path.join(HERE, "seeded", i)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w", encoding="utf-8").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w", encoding="utf-8").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w", encoding="utf-8"), indent=1, ensure_ascii=False)
        res = []
        for cwd, want in (("/repo", 0), (r, 1)):
            x = subprocess.run(["bash", out + "/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=300)
            if (x.returncode != 0) != (want != 0):
                res.append(f"demo in {cwd}: {x.returncode} {x.stdout[-300:]} {x.stderr[-700:]}")
        if res:
            shutil.rmtree(out)
            return i, "; ".join(res)
        env = dict(os.environ, PYTHONPATH=r + "/python", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        for venv in ("venv", "venv-noxml"):
            x = subprocess.run([f"/opt/{venv}/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--basetemp", d + "/t" + venv, "tests"], cwd=r + "/python", env=env, capture_output=True, text=True)
            if x.returncode not in (0,) and "failed" in x.stdout:
                shutil.rmtree(out)
                return i, f"tests fail in {venv}: " + "; ".join(y for y in x.stdout.splitlines() if y.startswith("FAILED"))[:300]
        base = subprocess.run(["git", "-C", "/repo", "diff", "e8c389b", "HEAD", "--stat"], capture_output=True, text=True)
        return i, "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(lambda i: make(i, bugs[i]), want):
            print(i, r, flush=True)


main()
