"""moz-l10n compare (K01)."""
from __future__ import annotations

import json

from sim import gen
from sim import project as pr
from sim.engine import Check
from sim.faults import plan

from .common import content, env_noise, hard_fired, cli, mkworld, need, settle

JSONS = ("webext", "plain_json")
SOURCE_JSON = "/sim/data/source.json"


def ids(spec):
    return list(dict.fromkeys(".".join(id) for id, _, _, _ in pr.keyed(spec)))


def gen_compare(rng):
    """A project, its localizations, and the arguments of one compare command."""
    p = pr.gen_project(rng)
    files = {q: f for q, f in p["files"].items()}
    mode = rng.choice(["config", "config", "dir", "json"])
    locales = p["locales"] + [lc for lc in pr.LOCALES if lc not in p["locales"]][:rng.choice([0, 1])]
    want = {}  # path in a localization -> source path, or (json) list of ids
    if mode == "dir":
        root = next(r for r in ("/sim/cfg/src/en-US", "/sim/cfg/en") if p["items"][0]["src"].startswith(r + "/"))
        source = root
        for it in p["items"]:
            rel = it["src"][len(root) + 1:]
            want[rel[:-1] if rel.endswith(".pot") else rel] = it["src"]
    elif mode == "config":
        source = pr.CFG
        for it in p["items"]:
            want[pr.target_rel(it["template"], "LC")[3:]] = it["src"]
    else:
        source = SOURCE_JSON
        for it in p["items"]:
            f = files[it["src"]]
            if "spec" not in f:
                continue
            mids = ids(f["spec"])
            if rng.random() < 0.3:
                mids = [m for m in mids if rng.random() < 0.7]
            if rng.random() < 0.3:
                mids.insert(rng.randint(0, len(mids)), rng.choice(["nowhere", "no.where", "-no"]))
            if rng.random() < 0.3:
                rng.shuffle(mids)
            want[pr.target_rel(it["template"], "LC")[3:]] = mids
        if rng.random() < 0.2:
            want["not/there.ftl"] = ["a", "b"]
        files[source] = {"text": json.dumps(want, ensure_ascii=False), "keep": 1}
    paths = []
    for lc in locales:
        q = pr.BASE + "/" + lc
        if rng.random() < 0.15:
            q += "/"
        elif rng.random() < 0.15:
            q += "/."
        paths.append(q)
        if rng.random() < 0.5 and not any(x.startswith(f"{pr.BASE}/{lc}/") for x in files):
            files[f"{pr.BASE}/{lc}/x.txt"] = {"text": "x"}
    if rng.random() < 0.15:
        paths.append(pr.BASE + "/none")
    if rng.random() < 0.5:
        out = ["--json"]
    else:
        out = [[], ["-v"], ["-vv"], ["-v", "-v"]][rng.randrange(4)]
    ext = None
    if rng.random() < 0.2:
        ext = rng.choice(["ftl", ".json,po", "!ftl", "!.xml", "properties,ini"])
        out = [*out, "--ext", ext]
    return {"files": files, "want": want, "mode": mode, "locales": locales, "ext": ext, "args": ["compare", *out, "--source", source, *paths]}


def ext_ok(ext, path):
    if not ext:
        return True
    inc, exc = [], []
    for x in ext.split(","):
        (exc if x.startswith("!") else inc).append("." + x.lstrip("!").lstrip("."))
    return (not inc or any(path.endswith(x) for x in inc)) and not any(path.endswith(x) for x in exc)


class K01(Check):
    prop = "K01"
    quick_seeds = 2200
    rule = ("A generated project of 1-4 source files in 10 formats is compared, by directory, config or JSON mapping, with 1-4 localizations which lack files and messages or are broken, "
            "with read errors, short reads, out-of-memory and localization files removed or replaced just before they are opened. Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        base = gen_compare(rng)
        base["faults"] = []
        env_noise(rng, base)
        settle(rng, base)
        yield base
        log = self.trace(base)
        srcs = {s for s in base["want"].values() if isinstance(s, str)}
        mine = {p for p in base["files"] if p.startswith(pr.BASE)}
        for _ in range(7 if tier == "quick" else 30):
            sc = dict(base)
            env_noise(rng, sc)
            only = mine if rng.random() < 0.8 else mine | srcs
            fs = plan(rng, log, allow=("errno", "benign", "nomem"), pred=lambda e: e[1] in ("open", "read") and e[2] in only)
            evs = [e for e in log if e[1] == "open" and e[2] in mine]
            if evs and rng.random() < 0.4:
                q = rng.choice(evs)[2]
                do = {"do": "remove", "path": q}
                if rng.random() < 0.5:
                    do = {"do": "replace", "path": q, "hex": b"<!ENTITY broken \xff".hex()}
                fs = [f for f in fs if f["path"] != q]
                fs.append({"op": 0, "kind": "open", "path": q, "nth": 0, "action": "env", "do": do})
            sc["faults"] = fs
            yield sc

    def run(self, sc, st):
        w = mkworld(sc)
        w.faults = sc["faults"]
        try:
            self.body(sc, st, w)
        finally:
            st.world(w)

    def body(self, sc, st, w):
        dirs = {p for p in w.snapshot()}
        o = cli(w, sc, sc["args"])
        st.out(o)
        files = sc["files"]
        hit = {w.faults[i]["path"]: "err" for i in hard_fired(w)}
        for i in w.fired_faults:
            f = w.faults[i]
            if f["action"] == "env":
                hit[f["path"]] = {"remove": "gone", "replace": "err"}[f["do"]["do"]]
        expected = {}
        fail = False
        loose = False
        for rel, src in sc["want"].items():
            if not ext_ok(sc["ext"], rel):
                continue
            if isinstance(src, list):
                expected[rel] = src
                continue
            f = files.get(src)
            if f is None or f.get("unknown"):
                loose = loose or src in hit
                continue
            if "spec" in f:
                if src in hit:
                    fail = True
                expected[rel] = ids(f["spec"])
            elif src.endswith(".json"):
                loose = True  # unknown format (skipped) or failed
                if src in hit:
                    fail = True
            elif content(f) == b"":
                expected[rel] = []
            else:
                fail = True
        total = sum(len(v) for v in expected.values())
        if fail:
            need(o.exit != 0 or loose and total == 0, "source-error-passed", f"a source file cannot be read or parsed, but exit 0:\n{o.out}")
            st.probe("source-failed")
            return
        if total == 0:
            need(o.exit != 0, "empty-source-passed", f"no source messages, but exit 0:\n{o.out}")
            st.probe("no-messages")
            return
        if o.exit != 0 and loose:
            return
        need(o.exit == 0, "aborted", f"exit {o.exit}: {o.brief()}")
        st.probe("compared")
        exp = {}
        for lc in sc["locales"]:
            if f"{pr.BASE}/{lc}" not in dirs:
                continue
            errors, missing = set(), {}
            for rel, mids in expected.items():
                if not mids:
                    continue
                p = f"{pr.BASE}/{lc}/{rel}"
                f = files.get(p)
                h = hit.get(p)
                if f is None or h == "gone":
                    missing[rel] = mids
                elif h == "err":
                    errors.add(rel)
                elif "spec" in f:
                    have = set(ids(f["spec"]))
                    m = [x for x in mids if x not in have]
                    if m:
                        missing[rel] = m
                elif f.get("text") == "" and not rel.endswith((".json", ".xml", ".xliff", ".xlf")):
                    missing[rel] = mids
                else:
                    errors.add(rel)
            exp[lc] = (errors, missing)
        if "--json" in sc["args"]:
            try:
                res = json.loads(o.out)
            except ValueError as e:
                need(False, "not-json", f"{e}: {o.out[:300]}")
            need(set(res) == set(exp), "locales", f"locales {sorted(res)} reported, expected {sorted(exp)}")
            for lc, (errors, missing) in exp.items():
                e, m = res[lc]["errors"] or {}, res[lc]["missing"] or {}
                need(set(e) == errors, "errors", f"{lc}: errors {e}, expected for {sorted(errors)}")
                need(m == missing, "missing", f"{lc}: missing {m}, expected {missing}")
        else:
            blocks, cur = {}, None
            for ln in o.out.split("\n"):
                lc, _, n = ln.partition(": ")
                if lc in sc["locales"] and n.lstrip("-").isdigit():
                    cur = blocks[lc] = [int(n)]
                elif cur is not None:
                    cur.append(ln)
                elif ln.startswith("source: "):
                    need(ln == f"source: {total}", "source-total", f"{ln!r}, expected {total}")
            need(set(blocks) == set(exp), "locales", f"locales {sorted(blocks)} reported, expected {sorted(exp)}")
            for lc, (errors, missing) in exp.items():
                n, *lines = blocks[lc]
                t = sum(len(m) for m in missing.values())
                need(n == -t, "count", f"{lc}: {n} reported, expected {-t}\n{o.out}")
                e = {ln[6:].partition(":")[0] for ln in lines if ln.startswith("  !!! ")}
                need(e == errors, "errors", f"{lc}: errors for {sorted(e)}, expected {sorted(errors)}\n{o.out}")
                v = sc["args"].count("-v") + 2 * sc["args"].count("-vv")
                if v:
                    for rel, m in missing.items():
                        block = f"\n  {rel}: {-len(m)}\n"
                        if v > 1:
                            block += "".join(f"    {x}\n" for x in m)
                        text = "\n" + "\n".join(lines) + "\n"
                        need(block in text, "missing", f"{lc}: {rel} should lack {m}:\n{o.out}")
                        if v > 1:
                            nxt = text[text.index(block) + len(block):]
                            need(not nxt.startswith("    "), "missing", f"{lc}: {rel} should lack only {m}:\n{o.out}")
                    for rel in expected:
                        if rel not in missing:
                            need(not any(ln.startswith(f"  {rel}: -") for ln in lines), "missing", f"{lc}: {rel} lacks nothing:\n{o.out}")
