#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough] [--seeds N] [--cap S]
run.py replay FILE
run.py trace FILE: the hash of the trace of the scenario in FILE, to compare processes"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
_want = {} if os.environ.get("VP_WORKER") else {"PYTHONHASHSEED": os.environ.get("VP_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"}
if any(os.environ.get(k) != v for k, v in _want.items()) or (os.path.exists(PY) and sys.executable != PY):
    os.environ.update(_want)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, os.path.join(HERE, "run.py"), *sys.argv[1:]])

sys.path.insert(0, HERE)
import warnings  # noqa: E402

warnings.simplefilter("ignore")


def main(argv):
    import argparse
    import json

    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "replay", "trace", "list", "worker"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args(argv)
    from sim import boot  # noqa: F401
    from sim import engine
    from checks import load

    if a.what == "worker":
        from checks import repro

        repro.serve()
        return 0
    if a.what == "list":
        from checks import IDS

        print("\n".join(IDS))
        return 0
    if a.what == "trace":
        body = json.load(open(a.arg, encoding="utf-8"))
        print(engine.trace_file(load(body["property"]), body))
        return 0
    if a.what == "replay":
        body = json.load(open(a.arg, encoding="utf-8"))
        check = load(body["property"])
        code, same = engine.replay_file(check, body)
        if code == 1:
            print(f"VIOLATION property={body['property']} replay={a.arg}" + ("" if same else " (different message)"))
        return code
    print(f"seed {a.seed} tier {a.tier}")
    return engine.run_check(load(a.arg), a.tier, a.seed, jobs=a.jobs, n_seeds=a.seeds, cap=a.cap)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
