"""moz-l10n build and build-file: B01-B04, C01, C02."""
from __future__ import annotations

import json
import os

from sim import gen
from sim import project as pr
from sim.engine import Check, Stats, Violation
from sim.faults import MUTATING, klass, plan
from sim.multi import Multi
from sim.proc import main_cli

from .common import COM, TOK, content, diff, env_noise, hard_fired, hexed, argv, cli, mkworld, need, settle, show
from moz.l10n.formats import Format, UnsupportedFormat
from moz.l10n.model import Entry, Resource, Section
from moz.l10n.resource import parse_resource, serialize_resource

T = pr.TARGET


def ref_build(src_path, src: bytes, l10n_path, l10n):
    """A second implementation of what one built file must hold.

    -> (bytes, kind) with kind "merge" or "copy", or (None, reason)
    """
    try:
        source = parse_resource(src_path, src)
    except UnsupportedFormat:
        return (l10n if l10n is not None else src), "copy"
    except Exception:  # noqa: BLE001
        return None, "bad source"
    try:
        return merge(source, l10n_path, l10n), "merge"
    except Exception as e:  # noqa: BLE001
        return None, f"bad localization: {type(e).__name__}"


def ref_alone(src_path, src: bytes):
    """What build-file makes of a source file when no --l10n is given."""
    try:
        source = parse_resource(src_path, src)
        return "".join(serialize_resource(source, trim_comments=True)).encode("utf-8"), "alone"
    except UnsupportedFormat:
        return src, "copy"
    except Exception:  # noqa: BLE001
        return None, "bad source"


def merge(source, l10n_path, l10n):
    fluent = source.format == Format.fluent
    have = {}
    out = Resource(source.format, [])
    if l10n is not None:
        out = parse_resource(l10n_path, l10n)
        for s in out.sections:
            for e in s.entries:
                if isinstance(e, Entry):
                    have[s.id + e.id] = e
    sections = []
    for s in source.sections:
        es = []
        for e in s.entries:
            if not isinstance(e, Entry):
                continue
            t = have.get(s.id + e.id)
            if t is None:
                if not fluent:
                    es.append(e)
            elif not fluent or t.id[0][0] == "-":
                es.append(t)
            elif all(k in t.properties for k in e.properties):
                es.append(Entry(t.id, t.value, properties={k: v for k, v in t.properties.items() if k in e.properties}))
        sections.append(Section(s.id, es))
    out.sections = sections
    return "".join(serialize_resource(out, trim_comments=True)).encode("utf-8")


def expectations(sc, files):
    """{target path: (bytes | None, kind, item, locale, src path, l10n path)}"""
    exp = {}
    for i, (it, lc, src, l10n, rel) in enumerate(pr.jobs(sc)):
        if src not in files:
            continue
        g = files.get(l10n)
        if sc["cmd"] == "build-file" and i in sc.get("nol10n", ()):
            b, kind = ref_alone(src, content(files[src]))
        else:
            b, kind = ref_build(src, content(files[src]), l10n, None if g is None else content(g))
        exp[f"{sc.get('target', T)}/{rel}"] = (b, kind, it, lc, src, l10n)
    return exp


def token_check(files, src, l10n, out: bytes, what):
    """Compare a built file with the model worked out from the specs alone."""
    f, g = files[src], files.get(l10n)
    if "spec" not in f or g is not None and ("spec" not in g or g["spec"]["fmt"] != f["spec"]["fmt"]):
        return
    exp, _, _ = pr.merged(f["spec"], g and g["spec"])
    text = out.decode("utf-8")
    toks = TOK.findall(text)
    where = {t: i for i, ts in enumerate(exp) for t in ts}
    for t in toks:
        need(t in where, "wrong-message", f"{what}: {t} is not expected in {show(out)}")
    miss = [t for t in where if t not in toks]
    need(not miss, "missing-message", f"{what}: {miss} is missing from {show(out)}")
    idx = [where[t] for t in toks]
    need(idx == sorted(idx), "wrong-order", f"{what}: messages not in source order: {show(out)}")
    need(not COM.findall(text), "comment-kept", f"{what}: {show(out)}")


def coverage_model(sc, files):
    """{locale: {key: {"total", "missing"}}} from the specs, or None if some file has no model."""
    out = {lc: {} for lc in sc["locales"]}
    for it, lc, src, l10n, rel in pr.jobs(sc):
        if src not in files:
            continue
        f, g = files[src], files.get(l10n)
        if "spec" not in f:
            continue
        key = os.path.relpath(rel, lc)
        if g is not None and ("spec" not in g or g["spec"]["fmt"] != f["spec"]["fmt"]):
            out[lc][key] = None
            continue
        _, total, missing = pr.merged(f["spec"], g and g["spec"])
        out[lc][key] = {"total": total, "missing": [pr.jid(i) for i in missing]}
    return out


STAT = ("stat", "lstat", "scandir")


def source_stats(e):
    """Calls whose errors glob() and isfile() of the standard library take for "no such file"."""
    return e[1] == "scandir" or e[1] in ("stat", "lstat") and (e[2].startswith("/sim/cfg") or e[1] == "lstat")


class Watch:
    """Every file below the target holds its previous or its expected contents, at each instant."""

    def __init__(self, w, allowed, under):
        self.allowed = allowed
        self.cur = {}
        self.bad = None
        self.under = under
        w.watch = self

    def begin(self, w, paths):
        self.paths = paths
        self.prev = {p: w.read(p) for p in paths}
        self.cur = dict(self.prev)

    def __call__(self, w, path):
        w.quiet += 1
        try:
            for p in self.paths:
                try:
                    got = w.read(p)
                except OSError:
                    got = None
                if got == self.cur[p]:
                    continue
                self.cur[p] = got
                if self.bad is None and got not in self.allowed(p):
                    self.bad = f"{p} holds {show(got)} for an instant (after {w.log[-1][:4]}); before {show(self.prev[p])}, new contents {[show(x) for x in self.allowed(p)[1:]]}"
        finally:
            w.quiet -= 1


def outside_writes(w, log0, allowed_prefixes):
    """Mutating system calls in the log from log0 on whose path is not below an allowed directory."""
    bad = []
    for op, kind, path, nth, detail in w.log[log0:]:
        k = klass((op, kind, path, nth, detail))
        if k not in MUTATING or k in ("close", "flock"):
            continue
        if kind == "close" or not isinstance(path, str):
            continue
        if not any(path == a or path.startswith(a + "/") for a in allowed_prefixes):
            bad.append((kind, path))
    return bad


class _Build(Check):
    quick_seeds = 1000
    variants = 6
    single = True  # also exercise build-file
    coverage_p = 0.5
    inplace = False
    rule = ("A generated project: 1-4 source files of 10 formats (or unknown), 1-3 locales with partial, extended, shuffled, broken or absent "
            "localizations, found by explicit or wildcard config entries or an include; built by `build`, or file by file by `build-file`, with faults drawn "
            "from the system calls of the undisturbed run. Non-trivial: at least one fault fired, or a dirty target was built into.")

    def scenarios(self, rng, tier):
        base = self.base(rng)
        yield base
        log = self.trace(base)
        n = self.variants if tier == "quick" else 30
        for _ in range(n):
            sc = dict(base)
            self.vary(rng, sc, log)
            yield sc

    def base(self, rng):
        sc = pr.gen_project(rng, elsewhere=True)
        sc["coverage"] = rng.random() < self.coverage_p
        sc["cmd"] = "build-file" if self.single and rng.random() < 0.35 else "build"
        sc["faults"] = []
        sc["stale"] = {}
        if sc["cmd"] == "build-file":
            sc["plan"] = [i for i in range(len(pr.jobs(sc)))]
            rng.shuffle(sc["plan"])
            if rng.random() < 0.4:
                sc["nol10n"] = [i for i in sc["plan"] if rng.random() < 0.5]
        if self.inplace and rng.random() < 0.1:
            sc["target"] = pr.BASE  # build over the localizations themselves
        env_noise(rng, sc)
        settle(rng, sc, extra=[T, *(f"{T}/{lc}" for lc in sc["locales"])])
        return sc

    def pred(self, e):
        return not source_stats(e)

    def vary(self, rng, sc, log):
        env_noise(rng, sc)
        sc["faults"] = plan(rng, log, pred=self.pred)
        if rng.random() < 0.12:
            sc["free"] = rng.choice([0, 1, 10, 40, 100, 300])
        if rng.random() < 0.5:
            sc["stale"] = self.gen_stale(rng, sc)

    def gen_stale(self, rng, sc):
        out = {}
        if "target" in sc:
            return out
        for it, lc, src, l10n, rel in pr.jobs(sc):
            p = f"{T}/{rel}"
            r = rng.random()
            if r < 0.3:
                out[p] = {"text": rng.choice(["", "torn", "old = V9999z old\n", "\n" * 400, "x" * 5000])}
            elif r < 0.5 and src in sc["files"] and "spec" in sc["files"][src]:
                out[p] = {"spec": sc["files"][src]["spec"]}
        if rng.random() < 0.3:
            out[T + "/leftover.txt"] = {"text": "leftover\n"}
        if sc["cmd"] == "build" and sc["coverage"]:
            for lc in sc["locales"]:
                if rng.random() < 0.3:
                    out[f"{T}/{lc}/coverage.json"] = {"text": rng.choice(["", "{", "{}", '{"old.ftl": {"total": 7, "missing": []}}'])}
        return out

    # -- running the commands of a scenario ------------------------------------------------
    def commands(self, sc):
        """[(args, [target files], coverage dir or None)]"""
        t = sc.get("target", T)
        if sc["cmd"] == "build":
            jobs = pr.jobs(sc)
            return [(pr.build_args(sc, t, sc["coverage"]), [f"{t}/{r}" for *_, r in jobs], None)]
        out = []
        jobs = pr.jobs(sc)
        for i in sc["plan"]:
            if i >= len(jobs):
                continue
            out.append(self.file_cmd(sc, jobs[i], t, i=i))
        return out

    def file_cmd(self, sc, job, t, coverage=None, i=None):
        it, lc, src, l10n, rel = job
        a = ["build-file", *["-v"] * sc.get("verbose", 0), "--source", src, "--target", f"{t}/{rel}"]
        if coverage is not None or i not in sc.get("nol10n", ()):
            a += ["--l10n", l10n]
        if sc["coverage"] if coverage is None else coverage:
            a += ["--coverage-base", f"{t}/{lc}"]
        return a, [f"{t}/{rel}"], f"{t}/{lc}"


class B01(_Build):
    prop = "B01"
    single = False
    quick_seeds = 1300
    rule = ("A project is built several times into one target: with other (older) localizations, other locales, torn and stale files in the target, and runs "
            "killed or failed by faults at drawn system calls, listing orders and buffer sizes; then once undisturbed, and compared byte for byte with a build into an empty target. "
            "Non-trivial: at least one fault fired or the target was dirty.")

    def base(self, rng):
        sc = super().base(rng)
        sc["history"] = []
        return sc

    def vary(self, rng, sc, log):
        super().vary(rng, sc, log)
        sc["stale"] = self.gen_stale(rng, sc) if rng.random() < 0.8 else {}
        hist = []
        for i in range(rng.choice([0, 1, 1, 2])):
            h = {"locales": rng.sample(pr.LOCALES, rng.choice([1, 2])) if rng.random() < 0.3 else list(sc["locales"]), "l10n": {}}
            rng.shuffle(h["locales"])
            for p, f in sc["files"].items():
                if p.startswith(pr.BASE) and rng.random() < 0.3:
                    h["l10n"][p] = rng.choice([None, {"text": "garbage\n"}, {"text": ""}])
            fs = plan(rng, log)
            for x in fs:
                x["op"] = i
            h["faults"] = fs
            if rng.random() < 0.2:
                h["free"] = rng.choice([0, 10, 100])
            hist.append(h)
        sc["history"] = hist
        sc["faults"] = []
        sc.pop("free", None)

    def run(self, sc, st):
        files = sc["files"]
        w = mkworld(sc, {**files, **sc["stale"]})
        try:
            if sc["stale"]:
                st.nontrivial = True
                st.probe("dirty-target")
            for i, h in enumerate(sc["history"]):
                for p, f in h["l10n"].items():
                    if f is None:
                        if w.read(p) is not None:
                            w.remove(p)
                    else:
                        w.put(p, content(f))
                w.op, w.faults = i, h["faults"]
                w.capacity = w.used() + h["free"] if "free" in h else None
                o = cli(w, sc, pr.build_args(sc, T, sc["coverage"], h["locales"]))
                st.out(o)
                w.capacity = None
                for p in h["l10n"]:
                    w.put(p, content(files[p]))
            w.op, w.faults = 50, []
            o = cli(w, sc, pr.build_args(sc, T, sc["coverage"]))
            st.out(o)
            ref = mkworld({**sc, "list_seed": "sorted", "bufsize": 8192}, files)
            ro = cli(ref, sc, pr.build_args(sc, T, sc["coverage"], sorted(sc["locales"])))
            need((o.exit == 0) == (ro.exit == 0), "result-depends-on-target", f"exit {o.exit} ({o.exc}) in the used target, {ro.exit} ({ro.exc}) in an empty one")
            if ro.exit != 0:
                st.probe("unbuildable")
                return
            st.probe("compared")
            want = ref.files(T)
            got = w.files(T)
            for p in want:
                need(got.get(p) == want[p], "output-depends-on-history", f"{p}: {show(got.get(p))} in the used target, {show(want[p])} in an empty one")
        finally:
            st.world(w)


class B02(_Build):
    prop = "B02"
    inplace = True
    quick_seeds = 1800

    def vary(self, rng, sc, log):
        super().vary(rng, sc, log)
        if rng.random() < 0.3:
            # nothing that a correct program may notice
            sc["faults"] = plan(rng, log, allow=("benign",), pred=lambda e: e[1] in ("read", "write"), n=rng.choice([1, 3, 6]))
            sc.pop("free", None)
            for f in sc["faults"]:
                if f["action"] not in ("short",) and f.get("errno") != "EINTR":
                    raise AssertionError(f)
        if sc["stale"] and rng.random() < 0.15:
            # a target that must not be written: the build may replace it or fail
            p = rng.choice(sorted(sc["stale"]))
            sc["stale"] = {**sc["stale"], p: {**sc["stale"][p], "mode": 0o444}}

    def run(self, sc, st):
        files = sc["files"]
        w = mkworld(sc, {**files, **sc["stale"]})
        try:
            exp = expectations(sc, files)
            if "free" in sc:
                w.capacity = w.used() + sc["free"]
            w.faults = sc["faults"]
            jobs = pr.jobs(sc)
            unbuildable = [(p, e[1]) for p, e in exp.items() if e[0] is None]
            for op, (args, targets, cov) in enumerate(self.commands(sc)):
                w.op = op
                h0, full0 = len(hard_fired(w)), w.full_hits
                o = cli(w, sc, args)
                st.out(o)
                disturbed = len(hard_fired(w)) > h0 or w.full_hits > full0
                bad = [b for b in unbuildable if b[0] in targets]
                badsrc = [s for s in files if s.startswith("/sim/cfg/") and s != pr.CFG and self.srcbad(files, s)]
                if o.exit == 0:
                    st.probe("success")
                    need(not bad, "silent-failure", f"exit 0, but {bad[:2]} cannot be built")
                    for t in targets:
                        if t not in exp:
                            continue
                        b, kind, it, lc, src, l10n = exp[t]
                        got = w.read(t)
                        need(got is not None, "target-missing", f"exit 0, but {t} was not written")
                        need(got == b, "wrong-output", f"exit 0, but {t} holds {show(got)}, not {show(b)} ({kind})")
                        if kind == "merge":
                            token_check(files, src, l10n, got, t)
                        elif kind == "alone" and "spec" in files[src]:
                            a, z = set(TOK.findall(content(files[src]).decode())), set(TOK.findall(got.decode()))
                            need(a == z, "missing-message", f"{t}: {sorted(a ^ z)}")
                            need(not COM.findall(got.decode()), "comment-kept", f"{t}: {show(got)}")
                elif not o.crashed and not disturbed:
                    st.probe("honest-failure")
                    need(bad or sc["cmd"] == "build" and badsrc or any("mode" in f for f in sc["stale"].values()), "false-failure", f"exit {o.exit} without a reason: {o.brief()}")
        finally:
            st.world(w)

    def srcbad(self, files, s):
        if not files[s].get("bad"):
            return False
        return ref_build(s, content(files[s]), "", None)[0] is None


class B03(_Build):
    prop = "B03"
    quick_seeds = 1800

    def base(self, rng):
        sc = super().base(rng)
        if rng.random() < 0.12:
            # localizations which are not below the base directory
            if rng.random() < 0.7:
                up = rng.choice(["../x/", "../cfg/", "../other/", "/sim/x/", "a/../../other/", "../"])
                for p in (pr.CFG, "/sim/cfg/sub.toml"):
                    if p in sc["files"]:
                        sc["files"][p] = {**sc["files"][p], "text": sc["files"][p]["text"].replace('l10n = "', f'l10n = "{up}', 1)}
            else:
                sc["locales"] = [*sc["locales"], rng.choice(["../x", "..", "/sim/x", "../other", "../cfg/en"])]
            if sc["cmd"] == "build-file":
                sc["cmd"] = "build"
        return sc

    def pred(self, e):
        return True

    def run(self, sc, st):
        files = sc["files"]
        w = mkworld(sc, {**files, **sc["stale"]})
        try:
            if "free" in sc:
                w.capacity = w.used() + sc["free"]
            before = {k: v for k, v in w.snapshot().items() if not (k + "/").startswith(T + "/")}
            w.faults = sc["faults"]
            for op, (args, targets, cov) in enumerate(self.commands(sc)):
                w.op = op
                log0 = len(w.log)
                pre = w.snapshot()
                o = cli(w, sc, args)
                st.out(o)
                if sc["cmd"] == "build":
                    allowed = [T]
                else:
                    d = os.path.dirname(targets[0])
                    allowed = [targets[0], d + "/<tmp>"] + ([cov + "/coverage.json", cov + "/<tmp>"] if cov and sc["coverage"] else [])
                    parents = set()
                    for x in (d, cov):
                        while x and x != "/sim":
                            parents.add(x)
                            x = os.path.dirname(x)
                    post = w.snapshot()
                    for p in set(pre) | set(post):
                        if pre.get(p, 0) != post.get(p, 0) and not (p in parents or p == targets[0] or cov and sc["coverage"] and p == cov + "/coverage.json"):
                            hidden = w.canon(p)
                            need(hidden.endswith("<tmp>") and o.exit != 0, "outside-target", f"build-file changed {p}")
                bad = [b for b in outside_writes(w, log0, allowed) if not (b[0] == "mkdir" and any((a + "/").startswith(b[1] + "/") for a in allowed))]
                need(not bad, "outside-target", f"{bad[:3]} (exit {o.exit})")
            now = {k: v for k, v in w.snapshot().items() if not (k + "/").startswith(T + "/")}
            d = diff(before, now)
            need(d is None, "outside-target", d)
        finally:
            st.world(w)


class B04(_Build):
    prop = "B04"
    inplace = True
    quick_seeds = 1400

    def pred(self, e):
        return True

    def vary(self, rng, sc, log):
        super().vary(rng, sc, log)
        if rng.random() < 0.25 and "target" not in sc:
            # two runs into the same target at the same time
            sc["sched"] = sorted([rng.randrange(140), rng.randrange(2)] for _ in range(rng.choice([1, 2, 3, 6])))
            for f in sc["faults"]:
                if rng.random() < 0.5:
                    f["op"] += 1

    def run(self, sc, st):
        files = sc["files"]
        w = mkworld(sc, {**files, **sc["stale"]})
        try:
            exp = expectations(sc, files)
            watch = Watch(w, lambda p: [watch.prev.get(p)] + ([exp[p][0]] if p in exp and exp[p][0] is not None else []), T)
            if "free" in sc:
                w.capacity = w.used() + sc["free"]
            w.faults = sc["faults"]
            op = 0
            for args, targets, cov in self.commands(sc):
                w.op = op
                watch.begin(w, list(exp))
                pre = set(w.files())
                h0 = len(w.fired_faults)
                if "sched" in sc:
                    st.nontrivial = True
                    st.probe("overlapping-runs")
                    w.cwd = sc.get("at") or "/sim"
                    m = Multi(w, [lambda a=argv(sc, args): main_cli.main(args=list(a), prog_name="moz-l10n", standalone_mode=True)] * 2, sc["sched"], op)
                    outs = m.run()
                    op += 1
                else:
                    outs = [cli(w, sc, args)]
                for o in outs:
                    st.out(o)
                need(watch.bad is None, "torn-output", watch.bad)
                hard = [w.faults[i] for i in w.fired_faults[h0:]]
                extra = set(w.files()) - pre - set(exp) - {p for p in w.files() if p.endswith("/coverage.json")}
                if not any(o.crashed for o in outs) and not any(f["kind"] == "unlink" for f in hard):
                    need(not extra, "leftover-file", f"exit {[o.exit for o in outs]} left {sorted(extra)}")
                op += 1
        finally:
            st.world(w)


class C01(_Build):
    prop = "C01"
    coverage_p = 1.0
    quick_seeds = 900
    rule = ("A generated project is built with --coverage into one target, and file by file with build-file --coverage-base, in a drawn order with repetitions and with disturbed "
            "(killed or failed) attempts in between, into another; reports are compared with a model worked out from the specs and with each other. Non-trivial: a fault fired, or more than one build-file run.")

    def base(self, rng):
        sc = pr.gen_project(rng, allow_bad=False, elsewhere=True)
        sc["coverage"], sc["cmd"], sc["faults"], sc["stale"] = True, "build", [], {}
        n = len(pr.jobs(sc))
        sc["plan"] = rng.sample(range(n), n)
        env_noise(rng, sc)
        settle(rng, sc, extra=[T, *(f"{T}/{lc}" for lc in sc["locales"])])
        return sc

    def vary(self, rng, sc, log):
        env_noise(rng, sc)
        n = len(pr.jobs(sc))
        p = rng.sample(range(n), n)
        for _ in range(rng.choice([0, 1, 2])):
            if n:
                p.insert(0, rng.randrange(n))
        sc["plan"] = p
        sc["faults"] = plan(rng, [e for e in log if e[0] != 100], pred=lambda e: not source_stats(e)) if rng.random() < 0.7 else []
        if rng.random() < 0.5:
            sc["stale"] = self.gen_stale(rng, sc)

    def run(self, sc, st):
        files = sc["files"]
        w = mkworld(sc, {**files, **sc["stale"]})
        try:
            exp = expectations(sc, files)
            cov = coverage_model(sc, files)
            w.op = 100
            o = cli(w, sc, pr.build_args(sc, T, True))
            st.out(o)
            if any(e[0] is None for e in exp.values()):
                st.probe("unbuildable")
                return
            need(o.exit == 0, "build-failed", f"{o.brief()}")
            got = {}
            for lc in sc["locales"]:
                b = w.read(f"{T}/{lc}/coverage.json")
                need(b is not None, "no-report", f"no coverage.json for {lc}")
                try:
                    got[lc] = json.loads(b)
                except ValueError:
                    need(False, "bad-report", f"{lc}: {show(b)}")
                need(set(got[lc]) == set(cov[lc]), "wrong-files", f"{lc}: reported {sorted(got[lc])}, built {sorted(cov[lc])}")
                for k, v in cov[lc].items():
                    if v is not None:
                        need(got[lc][k] == v, "wrong-entry", f"{lc} {k}: reported {got[lc][k]}, expected {v}")
                        st.probe("entries-checked")
            if any(f"{T}2/{r}".rsplit("/", 1)[1] == "coverage.json" for *_, r in pr.jobs(sc)):
                return
            # the same, file by file
            jobs = pr.jobs(sc)
            w.faults = sc["faults"]
            t2 = T + "2"
            if len(sc["plan"]) > 1:
                st.nontrivial = True
            for op, i in enumerate(sc["plan"]):
                if i >= len(jobs):
                    continue
                w.op = op
                args, targets, cdir = self.file_cmd(sc, jobs[i], t2, True)
                o = cli(w, sc, args)
                st.out(o)
                if o.exit != 0:
                    st.probe("retried")
                    w.faults = [f for f in sc["faults"] if f["op"] != op]
                    w.op = 200 + op
                    o = cli(w, sc, args)
                    st.out(o)
                    w.faults = sc["faults"]
                need(o.exit == 0, "build-file-failed", f"{args}: {o.brief()}")
            done = {i for i in sc["plan"] if i < len(jobs)}
            if len(done) < len(jobs):
                return
            for it, lc, src, l10n, rel in jobs:
                if src not in files:
                    continue
                a, b = w.read(f"{T}/{rel}"), w.read(f"{t2}/{rel}")
                need(a == b, "build-file-differs", f"{rel}: build gives {show(a)}, build-file {show(b)}")
            for lc in sc["locales"]:
                b = w.read(f"{t2}/{lc}/coverage.json")
                if b is None:
                    need(not any(j[1] == lc for j in jobs), "no-report", f"no coverage.json for {lc} by build-file")
                    continue
                try:
                    acc = json.loads(b)
                except ValueError:
                    need(False, "bad-report", f"{lc}: {show(b)} by build-file")
                unknown = {os.path.relpath(r, lc) for it, l, src, l10n, r in jobs if l == lc and (src not in files or exp[f"{T}/{r}"][1] == "copy")}
                acc = {k: v for k, v in acc.items() if k not in unknown}
                need(acc == got[lc], "accumulated-report-differs", f"{lc}: build {got[lc]}, build-file {acc}")
        finally:
            st.world(w)


class C02(_Build):
    prop = "C02"
    quick_seeds = 1300
    rule = ("1-6 build-file --coverage-base runs into one report, some killed, failed or with broken inputs, up to three of them overlapping at drawn system calls; "
            "the report is checked after every change on disk. Non-trivial: a fault fired or runs overlapped.")

    def base(self, rng):
        while True:
            sc = pr.gen_project(rng, allow_bad=rng.random() < 0.4, elsewhere=True)
            jobs = [i for i, j in enumerate(pr.jobs(sc))]
            if jobs:
                break
        sc["coverage"], sc["cmd"], sc["faults"], sc["stale"] = True, "build-file", [], {}
        seq = [rng.choice(jobs) for _ in range(rng.choice([1, 2, 3, 4]))]
        sc["groups"] = [[i] for i in seq]
        sc["sched"] = []
        r = rng.random()
        if r < 0.25:  # the report of earlier builds
            d = {rng.choice(["old.ftl", "sub/é \U0001f600.json", "a/b.properties", "x y.txt"]): {"total": rng.randrange(9), "missing": rng.choice([[], ["m1"], [["S", "k"], "é"]])} for _ in range(rng.choice([1, 2]))}
            sc["prior"] = {"text": json.dumps(d, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5), "good": 1, "keep": 1}
        elif r < 0.4:  # damaged by something else
            t = '{\n  "old.ftl": {\n    "missing": ["m1"],\n    "total": 3\n  }\n}'
            sc["prior"] = rng.choice([{"text": t[: rng.randrange(len(t))]}, {"text": rng.choice(["", "", "\n"])}, {"text": "[1, 2]"}, {"text": '"x"'}, {"hex": "ff" + t.encode().hex()}, {"text": t + t}, {"text": t[:-1] + "\0"}])
        env_noise(rng, sc)
        settle(rng, sc, extra=[T, *(f"{T}/{lc}" for lc in sc["locales"])])
        return sc

    def pred(self, e):
        return True

    def vary(self, rng, sc, log):
        env_noise(rng, sc)
        flat = [i for g in sc["groups"] for i in g]
        if rng.random() < 0.5:
            groups, k = [], 0
            while k < len(flat):
                n = rng.choice([1, 2, 2, 3])
                groups.append(flat[k : k + n])
                k += n
            if all(len(g) == 1 for g in groups):
                groups.append([rng.choice(flat), rng.choice(flat)])
            sc["groups"] = groups
            sc["sched"] = [sorted([rng.randrange(90), rng.randrange(3)] for _ in range(rng.choice([1, 2, 3, 5, 9]))) for g in groups]
        sc["faults"] = plan(rng, log) if rng.random() < 0.75 else []
        if rng.random() < 0.1:
            sc["free"] = rng.choice([0, 10, 100, 300])
            sc["free_op"] = rng.randrange(len(flat))

    def run(self, sc, st):
        files = sc["files"]
        w = mkworld(sc, files)
        try:
            self.body(sc, st, files, w)
        finally:
            st.world(w)

    def body(self, sc, st, files, w):
        jobs = pr.jobs(sc)
        model = coverage_model(sc, files)
        committed = {}  # coverage file -> {key: entry}
        state = {"bad": None, "req": {}}

        def parse(p):
            b = w.read(p)
            if b is None:
                return None, b
            try:
                d = json.loads(b)
                return (d if isinstance(d, dict) else "bad"), b
            except ValueError:
                return "bad", b

        def watch(world, path):
            world.quiet += 1
            try:
                for p, req in state["req"].items():
                    d, b = parse(p)
                    if state["bad"]:
                        return
                    if d == "bad":
                        state["bad"] = ("malformed-report", f"{p} holds {show(b)} for an instant (after {world.log[-1][:4]})")
                    else:
                        for k in req:
                            if d is None or k not in d:
                                state["bad"] = ("entry-lost", f"{p} lost its entry for {k} (after {world.log[-1][:4]}): {show(b)}")
                                return
                            if req[k] is not None and d[k] != req[k]:
                                state["bad"] = ("entry-wrong", f"{p}: {k} is {d[k]}, was recorded as {req[k]}")
            finally:
                world.quiet -= 1

        damaged = {}
        if sc.get("prior"):
            for c in {self.file_cmd(sc, j, T, True)[2] for j in jobs}:
                p = c + "/coverage.json"
                w.put(p, content(sc["prior"]))
                if sc["prior"].get("good"):
                    committed[p] = json.loads(content(sc["prior"]))
                else:
                    damaged[p] = content(sc["prior"])
        w.watch = watch
        op = 0
        w.faults = sc["faults"]
        for gi, g in enumerate(sc["groups"]):
            g = [i for i in g if i < len(jobs)]
            if not g:
                continue
            cmds = [self.file_cmd(sc, jobs[i], T, True) for i in g]
            covs = {c[2] + "/coverage.json" for c in cmds}
            state["req"] = {p: dict(committed.get(p, {})) for p in (covs | set(committed)) - set(damaged)}
            w.capacity = w.used() + sc["free"] if "free" in sc and sc["free_op"] == op else None
            if len(g) == 1:
                w.op = op
                outs = [cli(w, sc, cmds[0][0])]
                finished = started = [0]
            else:
                st.nontrivial = True
                st.probe("overlapping-groups")
                sched = sc["sched"][gi] if gi < len(sc["sched"]) else []
                w.cwd = sc.get("at") or "/sim"
                m = Multi(w, [lambda a=argv(sc, c[0]): main_cli.main(args=list(a), prog_name="moz-l10n", standalone_mode=True) for c in cmds], sched, op)
                outs = m.run()
                st.note(m.started_at, m.finished_at)
                finished, started = m.finished_at, m.started_at
            for o in outs:
                st.out(o)
            if state["bad"]:
                need(False, *state["bad"])
            for n, (o, c, i) in enumerate(zip(outs, cmds, g)):
                it, lc, src, l10n, rel = jobs[i]
                p = c[2] + "/coverage.json"
                if p in damaged:
                    st.probe("damaged-report")
                    need(w.read(p) == damaged[p], "damaged-report-replaced", f"exit {o.exit}, and {p} held {show(damaged[p])} (cannot be read), but now {show(w.read(p))}")
                    need(o.exit != 0, "damaged-report-ignored", f"exit 0, but {p} holds {show(damaged[p])}")
                    continue
                key = os.path.relpath(rel, lc)
                d, b = parse(p)
                need(d != "bad", "malformed-report", f"{p}: {show(b)}")
                if o.exit == 0:
                    st.probe("recorded")
                    val = model[lc].get(key, None)
                    # runs overlapping this one may have read the report before it was written
                    overlapped = any(x != n and cmds[x][2] == c[2] and started[x] < finished[n] and finished[x] >= finished[n] for x in range(len(g)))
                    if not overlapped:
                        need(d is not None and key in d, "entry-not-recorded", f"exit 0, but {p} has no entry for {key}: {show(b)}")
                    if d is not None and key in d:
                        if val is not None:
                            need(d[key] == val, "entry-wrong", f"{p}: {key} is {d[key]}, not {val}")
                        committed.setdefault(p, {})[key] = d[key]
            op += len(g)
        # a later run succeeds and keeps everything
        w.faults, w.capacity = [], None
        ok = [i for i, j in enumerate(jobs) if j[2] in files and "spec" in files[j[2]] and j[3] not in files]
        w.op = 500
        for i in ok[:2]:
            c = self.file_cmd(sc, jobs[i], T, True)
            p = c[2] + "/coverage.json"
            if p in damaged:
                continue
            state["req"] = {p: dict(committed.get(p, {}))}
            o = cli(w, sc, c[0])
            st.out(o)
            need(o.exit == 0, "later-run-fails", f"{c[0]}: {o.brief()}")
            if state["bad"]:
                need(False, *state["bad"])
