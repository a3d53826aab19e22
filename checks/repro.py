"""The same command in differently configured processes (D01).

Every run of a scenario takes place in several interpreter processes which differ in hash
randomisation, UTF-8 mode, locale and time zone; each simulates its own machine with its own
listing order, buffer sizes, clock, temporary names, working directory and benign disturbances.
"""
from __future__ import annotations

import atexit
import json
import os
import re
import subprocess
import sys

from sim import boot  # noqa: F401
from sim import project as pr
from sim.engine import Check
from sim.faults import plan
from sim.vfs import HarnessError

from . import compare, fix, lint, migrate
from .build import B02
from .common import Outcome, argv, mkworld, need, run_cli  # noqa: F401

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROCS = [
    {"PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "LC_ALL": "C.UTF-8", "TZ": "UTC"},
    {"PYTHONHASHSEED": "1", "PYTHONUTF8": "0", "LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Tokyo"},
    {"PYTHONHASHSEED": "2718", "PYTHONUTF8": "0", "LC_ALL": "C.UTF-8", "TZ": "America/New_York"},
    {"PYTHONHASHSEED": "31415926", "PYTHONUTF8": "1", "LC_ALL": "POSIX", "TZ": "UTC"},
]

_pool: dict[tuple[int, int], subprocess.Popen] = {}


def worker(i):
    p = _pool.get((os.getpid(), i))
    if p is None or p.poll() is not None:
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
        env.update(PROCS[i], PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", VP_WORKER="1")
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "run.py"), "worker"], env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _pool[os.getpid(), i] = p
    return p


@atexit.register
def _close():
    for (pid, _), p in _pool.items():
        if pid == os.getpid():
            p.kill()


def ask(i, job):
    p = worker(i)
    p.stdin.write(json.dumps(job).encode("ascii") + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError(f"interpreter process {i} died")
    r = json.loads(line)
    if "harness" in r:
        raise HarnessError(r["harness"])
    return r


def serve():
    """The body of `run.py worker`."""
    fd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    with os.fdopen(fd, "wb") as out:
        for line in sys.stdin.buffer:
            job = json.loads(line)
            try:
                r = execute(job["sc"], job["env"])
            except (HarnessError, Exception) as e:  # noqa: BLE001
                import traceback

                r = {"harness": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
            out.write(json.dumps(r).encode("ascii") + b"\n")
            out.flush()


def enc(b):
    return None if b is None else ["link", b[1]] if isinstance(b, tuple) else b.decode("latin-1")


def execute(sc, env):
    """All commands of a scenario on one machine: what each of them shows, and the final disk."""
    sc = {**sc, "at": env["cwd"] if env.get("rel") else None}
    w = mkworld({**sc, **env})
    if not w.exists("/sim/other"):
        w.put("/sim/other", None)
    w.clock = env["clock"]
    w._tmp = env["tmp"]
    outs = []
    w.faults = env["faults"]
    for op, args in enumerate(sc["cmds"]):
        w.op = op
        if sc["kind"] == "lib":
            w.cwd = env["cwd"]
            o = run_lib(w, *argv(sc, [args]))
        elif sc["kind"] == "migrate":
            o = migrate.run_migrate(w, sc, args, cwd=env["cwd"])
        else:
            o = run_cli(w, argv(sc, args), cwd=env["cwd"])
        outs.append({"exit": o.exit, "out": o.out, "err": squash(o.err), "exc": squash(o.exc)})
    return {
        "outs": outs,
        "files": {p: enc(b) for p, b in w.snapshot().items()},
        "steps": w.steps,
        "sim": w.clock - env["clock"],
        "fired": dict(w.fired),
        "log": [list(e) for e in w.log] if env.get("log") else [],
        "n": len(w.log),
        "escapes": w.escapes[:2],
    }


def squash(s):
    return s and re.sub(r"0x[0-9a-f]{6,}", "0x", s)


def run_lib(w, path):
    """Parse, convert and serialize one file by way of the library functions."""
    import io

    from moz.l10n.model import Entry
    from moz.l10n.message import message_to_json, serialize_message
    from moz.l10n.resource import parse_resource, serialize_resource
    from sim.proc import run_callable

    buf = io.StringIO()

    def f():
        res = parse_resource(path)
        print(res.format, res.meta, res.comment, file=buf)
        for s in res.sections:
            print(s.id, s.comment, s.meta, file=buf)
            for e in s.entries:
                if isinstance(e, Entry):
                    print(e.id, e.comment, e.meta, list(e.properties), file=buf)
                    for v in (e.value, *e.properties.values()):
                        print(json.dumps(message_to_json(v)), file=buf)
                        if res.format is not None and res.format.name != "fluent":
                            print(serialize_message(res.format, v), file=buf)
                else:
                    print(e, file=buf)
        for trim in (False, True):
            print("".join(serialize_resource(res, trim_comments=trim)), file=buf)

    o = run_callable(w, f)
    o.out = buf.getvalue()
    return o


def environ(rng, cwds, i):
    return {
        "proc": i,
        "list_seed": rng.choice([0, 1, 2, 3, 4, 5, "sorted", "reversed"]),
        "bufsize": rng.choice([8192, 8192, 1, 7, 64, 512]),
        "encoding": rng.choice(["utf-8", "utf-8", "cp1252", "ascii", "latin-1", "cp932", "utf-16"]),
        "clock": rng.choice([1_700_000_000.0, 0.0, 86399.5, 4_102_444_800.0, 951_782_399.0, 1_600_000_000.25]),
        "tmp": rng.choice([0, 0, 500, 123456]),
        "cwd": rng.choice(cwds),
        "rel": rng.random() < 0.3,
        "faults": [],
    }


class D01(Check):
    prop = "D01"
    quick_seeds = 2400
    quick_cap = 300.0
    hang_s = 120
    keep = {"locales", "items", "src", "plocales", "envs"}
    rule = ("One generated command line (build, build-file, fix, lint, compare, migrate, or library calls that print a whole parsed resource), up to three times in a row, is run on identical disks in up to four "
            "interpreter processes with different hash seeds, UTF-8 modes, locales and time zones, and with different locale encodings, clocks, listing orders, buffer sizes, working directories, temporary names and "
            "benign disturbances (short and interrupted reads and writes); standard output, log lines, exit status and the whole disk must be identical. Non-trivial: at least two processes differing in their hash seed took part.")

    def scenarios(self, rng, tier):
        kind = rng.choice(["build", "build", "build-file", "fix", "lint", "compare", "compare", "compare", "migrate", "lib"])
        sc = getattr(self, "g_" + kind.replace("-", "_"))(rng)
        sc["kind"] = kind
        cwds = sc.pop("cwds", None) or ["/sim", "/sim/other", "/sim/other"]
        for _ in range(2 if tier == "quick" else 6):
            order = rng.sample(range(1, len(PROCS)), rng.choice([1, 2, 2, 3]))
            envs = [environ(rng, cwds, i) for i in [0, *order]]
            sc = {**sc, "envs": envs}
            yield sc
            if rng.random() < 0.6:
                log = [tuple(e) for e in execute(sc, {**envs[0], "log": 1})["log"]]
                envs = [dict(e) for e in envs]
                for e in envs[1:]:
                    e["faults"] = plan(rng, log, allow=("benign",), pred=lambda e: e[1] in ("read", "write"), n=rng.choice([1, 3, 8]))
                yield {**sc, "envs": envs}

    def g_build(self, rng):
        sc = pr.gen_project(rng, elsewhere=True)
        return {"files": sc["files"], "cmds": [pr.build_args(sc, coverage=rng.random() < 0.7)] * rng.choice([1, 1, 2])}

    def g_build_file(self, rng):
        b = B02()
        sc = b.base(rng)
        sc["cmd"] = "build-file"
        sc["coverage"] = rng.random() < 0.7
        jobs = pr.jobs(sc)
        sc["plan"] = list(range(len(jobs)))
        rng.shuffle(sc["plan"])
        return {"files": sc["files"], "cmds": [c[0] for c in b.commands(sc)][:6] or [["build-file", "--version"]]}

    def g_fix(self, rng, what="fix"):
        mode = rng.choice(["dir", "glob", "config"])
        files, args = fix.gen_files(rng, mode)
        for f in files.values():
            f.pop("pre", None)
        if what == "fix" and rng.random() < 0.7:
            args = ["--continue", *args]
        args = [*rng.choice([[], ["-v"], ["-vv"]]), *args]
        return {"files": files, "cmds": [[what, *args]] * rng.choice([1, 1, 2]), "cwds": ["/sim/other"] if mode == "glob" else None}

    def g_lint(self, rng):
        sc = self.g_fix(rng, "lint")
        if rng.random() < 0.3:
            sc["cmds"] = [["lint", "--skip-unknown", *c[1:]] for c in sc["cmds"]]
        return sc

    def g_compare(self, rng):
        sc = compare.gen_compare(rng)
        args = [a if not a.startswith("l10n/") else "/sim/" + a for a in sc["args"]]
        return {"files": sc["files"], "cmds": [args]}

    def g_migrate(self, rng):
        sc = migrate.gen_migration(rng)
        return {**{k: sc[k] for k in ("files", "migrations", "items", "locales")}, "cmds": [sc["args"]] * rng.choice([1, 2, 3])}

    def g_lib(self, rng):
        sc = pr.gen_project(rng)
        return {"files": sc["files"], "cmds": [p for p, f in sc["files"].items() if "spec" in f or f.get("bad")][:5]}

    def run(self, sc, st):
        first = None
        for i, env in enumerate(sc["envs"]):
            r = ask(env["proc"], {"sc": sc, "env": env})
            st.commands += len(sc["cmds"])
            st.steps += r["steps"]
            st.simtime += r["sim"]
            st.fired.update(r["fired"])
            st.note(env["proc"], r["n"], sorted(r["fired"].items()), r["outs"], sorted(r["files"]))
            if r["escapes"]:
                raise HarnessError(str(r["escapes"]))
            if i == 0:
                first = r
                st.probe(f"cmd:{sc['kind']}")
                for o in r["outs"]:
                    st.probe(f"exit:{o['exit']}")
                continue
            st.probe(f"process:{env['proc']}")
            st.nontrivial = True
            for k, (a, b) in enumerate(zip(first["outs"], r["outs"])):
                same = not env["rel"] and not sc["envs"][0]["rel"]  # otherwise, paths are shown differently
                for what, cls in (("out", "output-differs"), ("exit", "exit-differs"), ("exc", "error-differs"), ("err", "log-differs")):
                    need(a[what] == b[what] or not same and what != "exit" and not (what == "out" and sc["kind"] in ("lib", "compare")), cls, f"{sc['kind']} {sc['cmds'][k]}: in environment {self.env_text(sc['envs'][0])}: {str(a[what])[-500:]!r}; in {self.env_text(env)}: {str(b[what])[-500:]!r}")
            for p in sorted(set(first["files"]) | set(r["files"])):
                x, y = first["files"].get(p, "absent"), r["files"].get(p, "absent")
                need(x == y, "file-differs", f"{sc['kind']} {sc['cmds']}: {p} is {str(x)[:300]!r} in environment {self.env_text(sc['envs'][0])}, {str(y)[:300]!r} in {self.env_text(env)}")

    def env_text(self, e):
        p = PROCS[e["proc"]]
        return f"(hash seed {p['PYTHONHASHSEED']}, {p['LC_ALL']}, encoding {e['encoding']}, clock {e['clock']}, listing {e['list_seed']}, cwd {e['cwd']}{' (relative paths)' if e['rel'] else ''}, buffer {e['bufsize']}, {len(e['faults'])} benign faults)"
