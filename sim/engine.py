"""Seeded search over simulated runs: workers, statistics, minimiser, replay, evidence."""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter, deque

from .vfs import Hang, HarnessError, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Violation(Exception):
    """The property is broken. `cls` is a stable class name used while minimising."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = str(msg)[:1500]


class Stats:
    """What one simulated run covered."""

    def __init__(self):
        self.commands = 0
        self.steps = 0
        self.simtime = 0.0
        self.fired = Counter()
        self.probes = Counter()
        self.h = hashlib.blake2b(digest_size=8)
        self.nontrivial = False
        self.log = []  # the events of every world of the run, for planning faults

    def world(self, w: World):
        """Account for a world once, when the run is done with it."""
        self.log.extend(w.log)
        self.steps += w.steps
        self.simtime += w.clock - 1_700_000_000.0
        for k, n in w.fired.items():
            self.fired[k] += n
        if w.fired:
            self.nontrivial = True
        for op, kind, path, nth, _ in w.log:
            self.h.update(f"{op}|{kind}|{path}|{nth}\n".encode("utf-8", "surrogateescape"))
        for k in sorted(w.fired):
            self.h.update(f"!{k}{w.fired[k]}".encode())
        if w.escapes:
            raise HarnessError(f"writes outside the simulated disk: {w.escapes[:3]}")

    def note(self, *a):
        self.h.update(repr(a).encode("utf-8", "surrogateescape"))

    def probe(self, name, n=1):
        self.probes[name] += n

    def out(self, o):
        """Record a command's outcome in the digest."""
        self.commands += 1
        self.h.update(repr((o.exit, o.out, o.exc_type)).encode("utf-8", "surrogateescape"))
        self.probe(f"exit:{o.exit}")


class Check:
    prop = ""
    quick_seeds = 400
    quick_cap = 240.0
    rule = ""
    real = "all of moz.l10n, click, polib, fluent.syntax, gitignorant, lxml, and CPython's io, os.walk, os.makedirs, glob, posixpath and json"
    stub = "the system calls on files (in-memory disk), clock, random bytes, process id"
    level = "exploration"
    hang_s = 20

    def scenarios(self, rng: random.Random, tier: str):
        """Yield the scenarios (plain JSON data) of one seed."""
        raise NotImplementedError

    keep: set = set()  # keys below which lists are not shrunk

    def run(self, sc: dict, st: Stats) -> None:
        """A pure function of `sc`; raises Violation."""
        raise NotImplementedError

    def trace(self, sc: dict):
        """The event log of a run of `sc`."""
        st = Stats()
        _history.append(sc)
        try:
            self.run(sc, st)
        except Violation:
            pass  # it will be found again when `sc` itself is run
        return st.log

    def shrinks(self, sc: dict):
        yield from generic_shrinks(sc, self.keep)

    def sample(self, sc):
        s = json.dumps(sc, ensure_ascii=False, sort_keys=True)
        return json.loads(s) if len(s) < 2500 else s[:2500] + "..."


# -- minimising -----------------------------------------------------------------


def generic_shrinks(sc, keep=frozenset()):
    """Candidates one step smaller: drop list items and optional keys, anywhere."""

    def paths(x, p=()):
        if isinstance(x, dict):
            for k, v in x.items():
                yield from paths(v, (*p, k))
                if isinstance(v, (list, dict)):
                    yield (*p, k)
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (list, dict)):
                    yield from paths(v, (*p, i))

    def at(x, p):
        for k in p:
            x = x[k]
        return x

    allp = sorted(set(paths(sc)), key=lambda p: (len(p), str(p)))
    for p in allp:
        v = at(sc, p)
        if isinstance(v, list) and len(v) > 0 and not any(k in KEEP or k in keep for k in p if isinstance(k, str)):
            n = len(v)
            if n > 3:
                for lo, hi in ((0, n // 2), (n // 2, n)):
                    c = json.loads(json.dumps(sc))
                    del at(c, p)[lo:hi]
                    yield c
            for i in reversed(range(n)):
                c = json.loads(json.dumps(sc))
                del at(c, p)[i]
                yield c
        elif isinstance(v, dict):
            for k in list(v):
                if isinstance(v[k], dict) and v[k].get("keep"):
                    continue
                if k in OPTIONAL or p[-1] in DICT_ITEMS:
                    c = json.loads(json.dumps(sc))
                    del at(c, p)[k]
                    yield c
    for k in OPTIONAL:
        if k in sc:
            c = json.loads(json.dumps(sc))
            del c[k]
            yield c


KEEP = {"id", "args", "keep"}  # parts never shrunk
OPTIONAL = {"comment", "head", "mid", "style", "stale", "tail_", "attrs", "capacity", "list_seed", "bufsize", "nth_", "n_"}
DICT_ITEMS = {"l10n", "stale", "extra", "files", "tree"}


def minimise(check, sc, v: Violation, budget=25.0):
    """Greedy delta debugging; keeps the violation class."""
    t0 = time.time()
    cur, curv = sc, v
    improved = True
    tried = 0
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in check.shrinks(cur):
            if time.time() - t0 > budget:
                break
            tried += 1
            try:
                run_one(check, cand, Stats(), 6)
            except Violation as v2:
                if v2.cls == v.cls:
                    cur, curv = cand, v2
                    improved = True
                    break
            except (HarnessError, Exception):  # noqa: BLE001  (invalid candidate)
                continue
    return cur, curv, tried


# -- known findings -----------------------------------------------------------------


def known_findings(prop):
    """[(class regex, message regex, text)] of this property's recorded, unrepaired findings."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) class=/(.*?)/ match=/(.*?)/ :: (.*)", line.strip())
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4]))
    return out


_stateful = {"n": 0}  # how often this process confirmed that a run repeats in a new process
_history: deque = deque(maxlen=60)
"""The latest scenarios run by this process, in case the code under test keeps something between them"""


# -- running ------------------------------------------------------------------------


def _alarm(*_):
    raise Hang("still running after its time limit")


def run_one(check, sc, st, limit):
    """check.run(), where not coming to an end is a violation as well."""
    try:
        signal.alarm(limit)
        check.run(sc, st)
    except Hang as e:
        signal.alarm(limit)
        try:  # once more, in case the machine was held up
            check.run(sc, Stats())
        except Hang:
            raise Violation("hang", str(e)) from None
    finally:
        signal.alarm(0)


def one_seed(check, seed, idx, tier, known, deadline, selfcheck):
    res = {"runs": 0, "steps": 0, "commands": 0, "simtime": 0.0, "fired": Counter(), "probes": Counter(),
           "sigs": set(), "nontrivial": set(), "viol": None, "harness": [], "known": Counter(), "sample": None,
           "rechecked": 0}
    rng = random.Random(f"{check.prop}:{seed}:{idx}")
    k = 0
    before: list = []
    gen = check.scenarios(rng, tier)
    while True:
        signal.alarm(check.hang_s)
        sc = None
        try:
            try:
                sc = next(gen)
            except StopIteration:
                break
            st = Stats()
            before = list(_history)
            _history.append(sc)
            try:
                run_one(check, sc, st, check.hang_s)
            finally:
                res["runs"] += 1
                res["steps"] += st.steps
                res["commands"] += st.commands
                res["simtime"] += st.simtime
                res["fired"].update(st.fired)
                res["probes"].update(st.probes)
                sig = st.h.hexdigest()
                res["sigs"].add(sig)
                if st.nontrivial:
                    res["nontrivial"].add(sig)
                    if res["sample"] is None:
                        res["sample"] = check.sample(sc)
            if selfcheck and k < 3:
                st2 = Stats()
                before = list(_history)
                _history.append(sc)
                check.run(sc, st2)
                res["rechecked"] += 1
                if st2.h.hexdigest() != sig:
                    signal.alarm(0)
                    if _stateful["n"] < 2:
                        _stateful["n"] += 1
                        one = fresh_trace(check, sc)
                        if not one or one != fresh_trace(check, sc):
                            raise HarnessError("a run did not repeat exactly")
                    # the code under test keeps something between runs, which is for the checks to judge
                    res["probes"]["other calls when repeated in the same process"] += 1
            k += 1
        except Violation as v:
            signal.alarm(0)
            for cre, mre, text in known:
                if re.search(cre, v.cls) and re.search(mre, v.msg):
                    res["known"][text] += 1
                    break
            else:
                if sc is None:
                    # found while the fault-free base run was being recorded
                    sc = getattr(v, "scenario", None)
                res["viol"] = (sc, v.cls, v.msg, idx, before)
                break
        except HarnessError as e:
            res["harness"].append(f"seed {idx}: {e}"[:2000])
            if len(res["harness"]) > 3:
                break
        except Exception:
            res["harness"].append(f"seed {idx}: {traceback.format_exc()}"[:3000])
            break
        finally:
            signal.alarm(0)
        if time.time() > deadline:
            break
    return res


_job = None


def _call(idx):
    check, seed, tier, known, deadline = _job
    if time.time() > deadline:
        return None
    return one_seed(check, seed, idx, tier, known, deadline, selfcheck=idx % 20 == 0)


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)


def run_check(check: Check, tier, seed, jobs=None, n_seeds=None, cap=None):
    global _job
    t0 = time.time()
    jobs = jobs or int(os.environ.get("VP_JOBS", "0")) or os.cpu_count() or 4
    if tier == "thorough":
        cap = cap or float(os.environ.get("VP_THOROUGH_S", "600"))
        n_seeds = n_seeds or 10_000_000
    else:
        cap = cap or check.quick_cap
        n_seeds = n_seeds or check.quick_seeds
    deadline = t0 + cap
    known = known_findings(check.prop)
    _job = (check, seed, tier, known, deadline)
    tot = None
    viol = None
    done = 0
    sys.stdout.flush()
    ctx = mp.get_context("fork")
    samples = []
    with ctx.Pool(jobs, initializer=_init) as pool:
        it = pool.imap_unordered(_call, range(n_seeds), chunksize=1)
        try:
            for r in it:
                if r is None:
                    if tier == "thorough" or time.time() > deadline:
                        break
                    continue
                done += 1
                if tot is None:
                    tot = r
                else:
                    for k in ("runs", "steps", "commands", "simtime", "rechecked"):
                        tot[k] += r[k]
                    for k in ("fired", "probes", "known"):
                        tot[k].update(r[k])
                    for k in ("sigs", "nontrivial"):
                        tot[k] |= r[k]
                    tot["harness"] += r["harness"]
                if r["sample"] is not None and len(samples) < 3:
                    samples.append(r["sample"])
                if r["viol"]:
                    viol = r["viol"]
                    break
                if len(tot["harness"]) > 20:
                    break
        finally:
            pool.terminate()
    tot = tot or {"runs": 0, "steps": 0, "commands": 0, "simtime": 0.0, "fired": Counter(), "probes": Counter(),
                  "sigs": set(), "nontrivial": set(), "harness": [], "known": Counter(), "rechecked": 0}
    code = 0
    replay = None
    if viol:
        sc, cls, msg, idx, before = viol
        signal.signal(signal.SIGALRM, _alarm)
        replay = report(check, sc, Violation(cls, msg), seed, idx, before)
        code = 1 if replay else 2
    elif tot["harness"]:
        print("HARNESS-ERROR (not a verdict):")
        for h in tot["harness"][:3]:
            print(h)
        code = 2
    for text, n in sorted(tot["known"].items()):
        print(f"KNOWN-FINDING: property={check.prop} {text} (seen {n} times)")
    wall = time.time() - t0
    ev = {
        "property": check.prop,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(tot["nontrivial"]),
            "rule": check.rule,
            "samples": samples or ["none"],
            "seeds": done,
            "simulated_runs": tot["runs"],
            "simulated_commands_or_calls": tot["commands"],
            "runs_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
            "seeds_per_hour": int(done / max(wall, 1e-3) * 3600),
            "simulated_steps": tot["steps"],
            "simulated_time_s": round(tot["simtime"], 3),
            "faults_fired": dict(sorted(tot["fired"].items())),
            "probes": dict(sorted(tot["probes"].items())),
            "distinct_traces": len(tot["sigs"]),
            "distinct_measure": "64-bit hash of the run's full event sequence (operation, system call, path, ordinal), schedule, faults fired and outcomes",
            "runs_repeated_for_determinism": tot["rechecked"],
            "real_components": check.real,
            "stub_components": check.stub,
            "harness_errors": len(tot["harness"]),
        },
        "assumptions": getattr(check, "assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    ev_path = os.path.join(HERE, "evidence", f"{check.prop}.json")
    if os.environ.get("VP_NOEVIDENCE"):
        ev_path = os.devnull  # runs against scratch copies of the repository
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    with open(ev_path, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        f.write("\n")
    print(
        f"{check.prop}: {done} seeds, {tot['runs']} simulated runs, {len(tot['nontrivial'])} distinct non-trivial, "
        f"{tot['steps']} steps, {sum(tot['fired'].values())} faults, {wall:.1f}s, exit {code}"
    )
    return code


def fresh_trace(check, sc):
    """The trace of a run of `sc` in a process of its own."""
    with tempfile.NamedTemporaryFile("w", suffix=".json", encoding="utf-8") as f:
        json.dump({"property": check.prop, "scenario": sc}, f)
        f.flush()
        r = subprocess.run([PY, os.path.join(HERE, "run.py"), "trace", f.name], capture_output=True, text=True, timeout=300)
    return r.stdout


def trace_file(check, body):
    signal.signal(signal.SIGALRM, _alarm)
    st = Stats()
    try:
        run_one(check, body["scenario"], st, check.hang_s)
    except Violation as v:
        return f"{st.h.hexdigest()} {v.cls}"
    return st.h.hexdigest()


def report(check, sc, v, seed, idx, before=()):
    if sc is None:
        print(f"HARNESS-ERROR: violation without scenario: {v}")
        return None
    small, sv, tried = minimise(check, sc, v)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)

    def save(s, x, suffix, before=()):
        body = {"property": check.prop, "seed": seed, "index": idx, "class": x.cls, "message": x.msg, "scenario": s}
        if before:
            body["before"] = list(before)
        hh = hashlib.blake2b(json.dumps(s, sort_keys=True).encode(), digest_size=5).hexdigest()
        p = os.path.join(d, f"{check.prop}-{hh}{suffix}.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump(body, f, indent=1, ensure_ascii=False)
        return p

    for s, x, suf in ((small, sv, ""), (sc, v, "-full")):
        p = save(s, x, suf)
        r = subprocess.run([PY, os.path.join(HERE, "run.py"), "replay", p], capture_output=True, text=True, timeout=300)
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            print(f"{check.prop} {x.cls}: {x.msg}")
            print(f"minimised with {tried} further runs; scenario: {json.dumps(s, ensure_ascii=False)[:1500]}")
            print(f"VIOLATION property={check.prop} replay={p}")
            return p
        why = f"replay of {p} did not reproduce (exit {r.returncode}):\n{r.stdout[-1500:]}{r.stderr[-1500:]}"

    # What the process ran before may matter: replay that as well, as little of it as will do.
    def again(part):
        p = save(sc, v, "-after", part)
        r = subprocess.run([PY, os.path.join(HERE, "run.py"), "replay", p], capture_output=True, text=True, timeout=600)
        return p if r.returncode == 1 and "VIOLATION" in r.stdout else None

    n = 1
    while before:
        part = before[-n:]
        if again(part):
            i = 0
            while len(part) > 1 and i < len(part) and i < 20:
                if again(part[:i] + part[i + 1:]):
                    part = part[:i] + part[i + 1:]
                else:
                    i += 1
            p = again(part)
            if p is None:
                break
            print(f"{check.prop} {v.cls}: {v.msg}")
            print(f"only after {len(part)} earlier runs in the same process; scenario: {json.dumps(sc, ensure_ascii=False)[:1500]}")
            print(f"VIOLATION property={check.prop} replay={p}")
            return p
        if n >= len(before):
            break
        n *= 4
    print(why)
    return None


def replay_file(check, body):
    signal.signal(signal.SIGALRM, _alarm)
    for sc in body.get("before", ()):
        try:
            run_one(check, sc, Stats(), check.hang_s)
        except Violation:
            pass
    try:
        run_one(check, body["scenario"], Stats(), check.hang_s)
    except Violation as v:
        same = v.cls == body["class"] and v.msg == body["message"]
        print(f"{v.cls}: {v.msg}")
        if not same:
            print(f"(recorded: {body['class']}: {body['message']})")
        return 1 if v.cls == body["class"] else 3, same
    return 0, False
