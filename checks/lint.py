"""moz-l10n lint (L01), and read-only commands in general (L02)."""
from __future__ import annotations

import re
from posixpath import join, normpath

from sim import gen
from sim import project as pr
from sim.engine import Check
from sim.faults import at, plan

from .common import content, diff, env_noise, hexed, cli, mkworld, need, settle
from .fix import ROOT, gen_files

L10N_EXT = {".dtd", ".ftl", ".inc", ".ini", ".json", ".po", ".pot", ".properties", ".xlf", ".xliff", ".xml"}


def gen_lint(rng):
    mode = rng.choice(["dir", "dir", "glob", "config"])
    files, args = gen_files(rng, mode)
    for p in list(files):
        f = files[p]
        f.pop("mode", None)
        f.pop("pre", None)
        if f.get("text") in gen.SURROGATE.values():
            f["st"] = "ok"  # can be parsed, only not written
        if f.get("st") == "any" and f.get("sel") and f.get("text") == "" and p.endswith((".json", ".xml", ".xliff")):
            f["st"] = "fail"
        elif f.get("st") == "any" and f.get("sel"):
            files[p] = {"spec": gen.gen_spec(rng, "fluent", gen.Toks("W"), 1), "st": "ok", "sel": True} if p.endswith(".ftl") else {
                "text": "what is this\n", "st": "fail", "sel": True}
            if p.endswith(".properties"):
                files[p]["st"] = "ok"
        if f.get("st") == "ok" and rng.random() < 0.12 and f.get("sel") and not f.get("keep") and "via" not in f and "spec" in f:
            fmt = f["spec"]["fmt"]
            b = gen.broken(rng, fmt)
            files[p] = {**hexed(b), "st": "fail", "sel": True}
        if mode != "config" and f.get("st") == "fail" and f.get("sel") and "via" not in f and rng.random() < 0.15:
            files[p] = {"link": f"/sim/store/{rng.choice(['gone.ftl', p.rsplit('/', 1)[1]])}", "st": "fail", "sel": True}
    base = {"expand": sorted(a for a in args if a.startswith("/")), "ROOT": ROOT}
    return mode, files, args, base


class L01(Check):
    prop = "L01"
    quick_seeds = 2500
    rule = ("A tree of 1-9 generated files in 10 formats, some broken, not UTF-8, unsupported, ignored or hidden, is linted by directory, glob or config, "
            "with read errors, short reads, out-of-memory and files removed or replaced just before they are opened. Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        mode, files, args, _ = gen_lint(rng)
        opts = ["-v"] if rng.random() < 0.6 else []
        skip = rng.random() < 0.3
        if skip:
            opts.append(rng.choice(["-u", "--skip-unknown"]))
        base = {"files": files, "args": [*opts, *args], "mode": mode, "skip": skip, "faults": []}
        env_noise(rng, base)
        settle(rng, base)
        yield base
        log = self.trace(base)
        sel = {f.get("via", p) for p, f in files.items() if f.get("sel")}
        for _ in range(7 if tier == "quick" else 30):
            sc = dict(base)
            env_noise(rng, sc)
            fs = plan(rng, log, allow=("errno", "benign", "nomem"), pred=lambda e: e[1] in ("open", "read", "fstat", "close") and e[2] in sel)
            evs = [e for e in log if e[1] == "open" and e[2] in sel]
            if evs and rng.random() < 0.4:
                e = rng.choice(evs)
                p = e[2]
                k = rng.random()
                if k < 0.4:
                    do = {"do": "remove", "path": p}
                elif k < 0.7:
                    do = {"do": "replace", "path": p, "hex": b"<!ENTITY broken \xff".hex()}
                else:
                    spec = next((f["spec"] for q, f in files.items() if f.get("via", q) == p and "spec" in f), None)
                    do = {"do": "replace", "path": p, "data": gen.render(spec)} if spec else {"do": "remove", "path": p}
                fs.append({"op": 0, "kind": "open", "path": p, "nth": 0, "action": "env", "do": do})
            sc["faults"] = fs
            yield sc

    def run(self, sc, st):
        w = mkworld(sc)
        w.faults = sc["faults"]
        try:
            self.body(sc, st, w)
        finally:
            st.world(w)

    def body(self, sc, st, w):
        o = cli(w, sc, ["lint", *sc["args"]])
        st.out(o)
        hits = {}
        for i in w.fired_faults:
            f = w.faults[i]
            if f["action"] == "env":
                hits[f["path"]] = {"remove": "bad", "replace": "bad" if "hex" in f["do"] else hits.get(f["path"], "good")}[f["do"]["do"]]
        for i in w.fired_faults:
            f = w.faults[i]
            if f["action"] == "nomem" or f["action"] == "errno" and f["errno"] != "EINTR":
                hits[f["path"]] = "bad" if f["kind"] in ("open", "read") else "maybe"
        want = {}
        for p, f in sc["files"].items():
            if not f.get("sel"):
                continue
            q = f.get("via", p)
            ext = "." + q.rsplit(".", 1)[1]
            if sc["skip"] and ext not in L10N_EXT:
                want[q] = "skip"
            else:
                want[q] = hits.get(q) or ("good" if f["st"] == "ok" else "bad")
        root = "/sim" if sc["mode"] == "glob" else ROOT
        lines = o.err.split("\n")

        def reported(p, word):
            heads = {ln: ln[len(word) + 1:].split(" - ")[0] for ln in lines if ln.startswith(word + " ")}
            return [ln for ln in lines if ln in heads and p in {normpath(join(d, heads[ln])) for d in (root, sc.get("at") or "/sim")}]

        bad = [p for p in want if want[p] == "bad"]
        maybe = [p for p in want if want[p] == "maybe"]
        if o.exit == 0:
            need(not bad, "bad-file-passed", f"exit 0, but cannot be read or parsed: {bad[:3]}")
            st.probe("passed")
        else:
            need(bad or maybe, "false-alarm", f"exit {o.exit} with nothing wrong: {o.brief()}")
            need(o.exit == 1 and not o.exc, "aborted", f"lint ended with exit {o.exit}: {o.exc}")
            st.probe("failed")
        for p in bad:
            need(reported(p, "FAIL") or reported(p, "unsupported"), "not-reported", f"{p} cannot be read or parsed, but is not reported:\n{o.err}")
        for p in want:
            if want[p] == "good":
                need(not reported(p, "FAIL") and not reported(p, "unsupported"), "false-report", f"{p} is valid, but reported:\n{o.err}")
                if "-v" in sc["args"]:
                    need(len(reported(p, "ok")) == 1 or sc["args"].count(p) > 1, "not-checked", f"{p} was not checked exactly once:\n{o.err}")
        for p, f in sc["files"].items():
            if "sel" in f and not f["sel"] and "-v" in sc["args"]:
                for word in ("ok", "FAIL", "unsupported"):
                    need(not reported(p, word), "unselected-file-checked", f"{p} was not selected, but {word} reported:\n{o.err}")


class L02(Check):
    prop = "L02"
    quick_seeds = 1500
    rule = ("lint over generated trees, compare over generated projects, and migrate --dry-run over generated migrations, with errors, crashes, interrupts and short reads at "
            "any drawn system call; every system call must be read-only and the disk unchanged. Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        from .compare import gen_compare
        from .migrate import gen_migration

        k = rng.choice(["lint", "compare", "migrate"])
        if k == "lint":
            mode, files, args, _ = gen_lint(rng)
            base = {"files": files, "args": ["lint", *args]}
        elif k == "compare":
            c = gen_compare(rng)
            base = {"files": c["files"], "args": c["args"]}
        else:
            m = gen_migration(rng)
            base = {"files": m["files"], "args": [*m["args"][:1], rng.choice(["-n", "--dry-run"]), *m["args"][1:]], "migrations": m["migrations"]}
        base["faults"] = []
        env_noise(rng, base)
        settle(rng, base)
        yield base
        log = self.trace(base)
        for _ in range(6 if tier == "quick" else 30):
            sc = dict(base)
            env_noise(rng, sc)
            sc["faults"] = plan(rng, log)
            yield sc

    def run(self, sc, st):
        w = mkworld(sc)
        before = w.snapshot()
        w.faults = sc["faults"]
        try:
            if "migrations" in sc:
                from .migrate import run_migrate

                o = run_migrate(w, sc, sc["args"])
            else:
                o = cli(w, sc, sc["args"])
            st.out(o)
            st.probe(f"{sc['args'][0]}:{o.exit}")
            from .build import outside_writes

            bad = outside_writes(w, 0, [])
            need(not bad, "not-read-only", f"{sc['args'][0]} made these calls: {bad[:3]}")
            d = diff(before, w.snapshot())
            need(d is None, "disk-changed", f"{sc['args'][0]}: {d}")
        finally:
            st.world(w)
