"""moz-l10n migrate (M01-M05)."""
from __future__ import annotations

import re
from copy import deepcopy
from posixpath import join, normpath

from sim import gen, migspec
from sim import project as pr
from sim.engine import Check
from sim.faults import plan
from sim.proc import run_callable

from moz.l10n.model import CatchallKey, Expression, PatternMessage, SelectMessage, VariableRef

from .common import COM, TOK, Comment, Entry, content, diff, env_noise, hard_fired, hexed, mkworld, need, parse_resource, argv, cli, relpath, run_cli, settle, show

ROOT = "/sim/m"
REFS = "/sim/refs"
NEED_REF = ("ini", "xliff", "plain_json", "webext", "android")
PLAIN = {"plain", "attrs", "escape", "cont", "printf", "colon", "trail", "hash", "punct", "apos", "quoteent", "flags", "quote", "html", "ph", "multi", "select", "var", "note", "state"}


def new_id(rng, fmt, n, spec):
    if fmt == "ini":
        return [rng.choice([e["id"][0] for e in spec["entries"]] or ["Strings"]), f"mig{n}"]
    if fmt == "xliff":
        return [rng.choice([e["id"][0] for e in spec["entries"]] or ["f1"]), f"mig.{n}"]
    if fmt == "plain_json":
        return rng.choice([[f"mig{n}"], ["grp0", f"mig{n}"], ["migs", "sub", f"mig{n}"]])
    return [{"fluent": f"mig-{n}", "properties": f"mig.{n}", "dtd": f"mig.{n}", "inc": f"MIG_{n}", "gettext": f"Mig {n}", "webext": f"mig{n}", "android": f"mig_{n}"}[fmt]]


def gen_migration(rng, *, faulty=0.3, broken=0.15, chain=0.15):
    """{"files", "args", "migrations" (per script), "items", "locales", "chain"}"""
    toks = gen.Toks()
    mode = rng.choice(["config", "config", "root", "ref"])
    locales = rng.sample(pr.LOCALES, rng.choice([1, 2, 2, 3]))
    files = {}
    items = []
    refdir = {"config": ROOT + "/en", "root": ROOT + "/en-US", "ref": REFS}[mode]
    toml = f'basepath = "."\nlocales = {locales!r}\n'.replace("'", '"')
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        fmt = rng.choice(gen.FORMATS if i == 0 or rng.random() < 0.5 else [items[0]["fmt"]])
        ext = gen.EXT[fmt]
        rel = rng.choice([f"f{i}{ext}", f"browser/f{i}{ext}", f"browser/sub dir/f{i}{ext}", f"f{i}.é{ext}"])
        src = f"{refdir}/{rel}" + ("t" if fmt == "gettext" else "")
        spec = gen.gen_spec(rng, fmt, toks, tag="s")
        if fmt in ("ini", "xliff") and rng.random() < 0.4:  # the same key in two sections
            a, b = rng.sample(spec["entries"], 2) if len(spec["entries"]) > 1 else (None, None)
            if a and a["id"][0] != b["id"][0] and [b["id"][0], a["id"][1]] not in [e["id"] for e in spec["entries"]]:
                b["id"] = [b["id"][0], a["id"][1]]
        ref = ("en/" if mode == "config" else "") + rel + ("t" if fmt == "gettext" and rng.random() < 0.5 else "")
        it = {"fmt": fmt, "ref": ref, "rel": rel, "src": src, "plocales": None}
        files[src] = {"spec": spec, "ref": 1}
        if rng.random() < 0.08:
            files[src] = {**hexed(gen.broken(rng, fmt)), "ref": 1}
        elif mode == "config" and rng.random() < 0.1:
            del files[src]
        if mode == "config":
            toml += f'[[paths]]\nreference = "en/{rel}{"t" if fmt == "gettext" else ""}"\nl10n = "{{locale}}/{rel}"\n'
            if rng.random() < 0.2:
                it["plocales"] = rng.sample(locales, 1)
                toml += f"locales = {it['plocales']!r}\n".replace("'", '"')
        specs = {}
        for lc in locales:
            p = f"{ROOT}/{lc}/{rel}"
            r = rng.random()
            if r < 0.2:
                continue
            if r < 0.2 + broken:
                if rng.random() < 0.2:
                    files[p] = {"link": "/sim/nowhere/file"}
                else:
                    files[p] = {**hexed(gen.broken(rng, fmt)), "bad": 1}
                continue
            d = pr.derive_l10n(rng, spec, toks, "l")
            if fmt == "ini" and rng.random() < 0.4:
                d["split"] = rng.randint(0, 9)
            if fmt == "ini" and not d["entries"]:
                continue
            files[p] = {"spec": d}
            specs[lc] = d
        it["specs"] = specs
        it["spec"] = spec
        items.append(it)
    for lc in locales:
        files[f"{ROOT}/{lc}/unrelated.txt"] = {"text": f"unrelated {lc}\n", "keep": 1}
    if mode == "config":
        files[ROOT + "/l10n.toml"] = {"text": toml, "keep": 1}
    migs = []
    n = 0
    chained = False
    added = []  # (ref, fmt, id) of earlier steps
    for _ in range(rng.choice([1, 1, 1, 2])):  # scripts
        script = []
        for _ in range(rng.choice([1, 1, 2])):
            mig = []
            for it in rng.sample(items, rng.randint(1, len(items))):
                steps = []
                used = set()
                for _ in range(rng.choice([1, 1, 2, 3])):
                    n += 1
                    fmt = it["fmt"]
                    own = [e for e in it["spec"]["entries"] if e["var"] in PLAIN and not e["id"][0].startswith("-")]
                    id = new_id(rng, fmt, n, it["spec"])
                    if rng.random() < 0.25 and own:
                        id = rng.choice(own)["id"]
                    elif fmt in ("fluent", "properties", "dtd", "webext", "android") and own and rng.random() < 0.2:
                        near = f"{rng.choice(own)['id'][0]}{n}"  # sorts next to another one
                        if all(e["id"] != [near] for sp in [it["spec"], *it["specs"].values()] if sp for e in sp["entries"]) and "." not in near:
                            id = [near]
                    if tuple(id) in used:
                        continue
                    used.add(tuple(id))
                    st = gen_step(rng, it, items, own, toks, n, faulty, locales)
                    if rng.random() < chain and added:
                        ref, f2, aid = rng.choice(added)
                        if f2 == fmt and aid != id:
                            st = {"kind": "copy", "from": ref if ref != it["ref"] or rng.random() < 0.3 else None, "src": aid}
                    steps.append({"id": id, **st})
                added += [(it["ref"], it["fmt"], s["id"]) for s in steps]
                cut = rng.randint(1, len(steps) - 1) if len(steps) > 1 and rng.random() < 0.15 else len(steps)
                mig.append([it["ref"], steps[:cut]])
                if cut < len(steps):  # the same file under another name
                    r = it["ref"]
                    alias = "./" + r if it["fmt"] != "gettext" or rng.random() < 0.3 else r[:-1] if r.endswith(".pot") else r + "t"
                    mig.append([alias, steps[cut:]])
                    it.setdefault("aliases", []).append(alias)
                    ids = [s["id"] for s in steps[:cut]]
                    for s in steps[cut:]:
                        for c in [s, s.get("value"), *(s.get("props") or {}).values()]:
                            chained |= isinstance(c, dict) and c["kind"] == "copy" and c["src"] in ids
                            if isinstance(c, dict) and c["kind"] == "copy" and c["from"] == it["ref"]:
                                c["from"] = None
            script.append(mig)
        migs.append(script)
    real = {a: it["ref"] for it in items for a in it.get("aliases", ())}
    later = set()  # what a step copies must not be added by it or a later one
    for script in reversed(migs):
        for mig in reversed(script):
            for ref, steps in reversed(mig):
                ref = real.get(ref, ref)
                for s in reversed(steps):
                    later.add((ref, tuple(s["id"])))
                    for c in [s, s.get("value"), *(s.get("props") or {}).values()]:
                        if isinstance(c, dict) and c["kind"] == "copy" and (c["from"] or ref, tuple(c["src"])) in later:
                            c["src"] = ["nothing-here"]
    earlier, gone = set(), {it["ref"] for it in items if any(f"{ROOT}/{lc}/{it['rel']}" not in files for lc in locales)}
    for ref, steps in (x for script in migs for mig in script for x in mig):
        ref = real.get(ref, ref)
        for s in steps:
            for c in [s, s.get("value"), *(s.get("props") or {}).values()]:
                if isinstance(c, dict) and c["kind"] == "copy" and c["from"] not in (None, ref) and (c["from"], tuple(c["src"])) in earlier:
                    chained = True
                # get_pattern() tells a missing file from a missing message
                if isinstance(c, dict) and c.get("pattern") and c["from"] in gone and any(r == c["from"] for r, _ in earlier):
                    chained = True
            earlier.add((ref, tuple(s["id"])))
    v = rng.choice([[], [], ["-v"], ["-vv"], ["-q"]])
    where = {"config": ["--config", ROOT + "/l10n.toml"], "root": ["--root", ROOT], "ref": ["--root", ROOT, "--ref", REFS]}[mode]
    for it in items:
        it.pop("specs"), it.pop("spec")
    return {"files": files, "args": ["migrate", *v, *where, *[migspec.SCRIPT] * len(migs)], "migrations": migs, "items": items,
            "locales": locales, "chain": chained, "mode": mode}


def gen_step(rng, it, items, own, toks, n, faulty, locales):
    fmt = it["fmt"]
    r = rng.random()
    text = toks("m") + rng.choice(gen.TAILS)

    def cp(**kw):
        same = [x for x in items if x["fmt"] == fmt]
        o = rng.choice(same) if rng.random() < 0.85 else rng.choice(items)
        ents = [e for e in o["spec"]["entries"] if e["var"] in PLAIN]
        src = rng.choice(ents)["id"] if ents and rng.random() < 0.93 else ["nothing-here"]
        c = {"kind": "copy", "from": None if o is it and rng.random() < 0.6 else o["ref"], "src": src, **kw}
        if o["fmt"] != fmt:
            if "property" not in kw:
                c["value_only"] = True
        elif rng.random() < 0.3:
            c["replace"] = rng.choice([True, "mutate", "mutate", "drop", "new"] if fmt == o["fmt"] == "fluent" else [True])
        if o["fmt"] in ("fluent", "gettext", "android") and o["fmt"] == fmt and "property" not in kw and rng.random() < 0.15:
            c["variant"] = rng.choice(["one", "other", "few", "nope"])
            c.pop("value_only", None)
        if o["fmt"] == fmt and rng.random() < 0.1:
            c.pop("value_only", None)
            c.pop("replace", None)
            c["pattern"] = True
            if rng.random() < 0.4:
                c["default"] = toks("m")
            if fmt == "fluent" and "property" not in c and rng.random() < 0.4:
                c["property"] = rng.choice(["label", "title", "nope"])
        return c

    if r < 0.45:
        return cp()
    if r < 0.6:
        st = {"kind": "msg", "text": text}
        if rng.random() < 0.4 and own:
            st["after"] = [e["id"] for e in rng.sample(own, min(len(own), rng.choice([1, 2])))]
        return st
    if r < 0.75:
        def own_fn():
            f = {"kind": "msg", "text": toks("m") + rng.choice(gen.TAILS)}
            if rng.random() < 0.4 and own:
                f["after"] = [rng.choice(own)["id"]]
            return f

        st = {"kind": "entry", "value": rng.choice([text, text, own_fn(), cp(value_only=True), cp(value_only=True), cp()])}
        if fmt == "fluent" and rng.random() < 0.6:
            st["props"] = {"label": rng.choice([toks("m"), own_fn(), cp(value_only=True), cp(value_only=True)])}
            if len(own) > 1 and rng.random() < 0.4:  # made from two messages of the file
                a, b = rng.sample(own, 2)
                st["value"] = {"kind": "copy", "from": None, "src": a["id"], "value_only": True}
                st["props"]["label"] = {"kind": "copy", "from": None, "src": b["id"], "value_only": True}
            if rng.random() < 0.4:
                st["props"]["title"] = cp(property=rng.choice(["label", "title"]))
        if rng.random() < 0.3:
            st["comment"] = f"C{toks('c')} added"
        if rng.random() < 0.3:
            st["allow_partial"] = True
        return st
    if rng.random() < faulty:
        if rng.random() < 0.5:
            return {"kind": "bad", "text": text}
        return {"kind": "raise", "text": text, "locales": rng.sample(locales, 1), "exc": rng.choice(list(migspec.RAISE))}
    return {"kind": "none"} if rng.random() < 0.2 else {"kind": "msg", "text": text}


def run_migrate(w, sc, args, cwd=None):
    migspec.CURRENT[:] = sc["migrations"]
    return run_cli(w, argv(sc, args), cwd=cwd) if cwd else cli(w, sc, args)


def parsed(path, b):
    """(entries with their comments, other comments) of a file, or None."""
    try:
        res = parse_resource(path, b)
    except Exception:  # noqa: BLE001
        return None
    ents, coms = [], [("res", res.comment)] if res.comment else []
    for s in res.sections:
        if s.comment:
            coms.append(("sec", s.comment))
        for e in s.entries:
            if isinstance(e, Entry):
                ents.append((s.id + e.id, e.value, e.properties, e.comment))
            elif isinstance(e, Comment):
                coms.append(("com", e.comment))
    return ents, coms


def ordered(path, b):
    """The ids of the messages, with a string for each comment between them."""
    out = []
    for s in parse_resource(path, b).sections:
        for e in s.entries:
            out.append(s.id + e.id if isinstance(e, Entry) else e.comment)
    return out


def is_subseq(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def squash(s):
    return re.sub(r"\\n|[\W_]+", "", s)


def lost(path, before, after):
    """What `after` has lost of `before`, or None."""
    if after is None:
        return "the file is gone"
    a, b = parsed(path, before), parsed(path, after)
    if a is None:
        return None if before == after else "a file that cannot be parsed was changed"
    if b is None:
        return "it can no longer be parsed"
    x, y = [e[:3] for e in a[0]], [e[:3] for e in b[0]]
    if path.endswith(".json"):  # where a nested object goes depends on its first member
        y = [e for e in x if e in y]
    if not is_subseq(x, y):
        return f"messages {next(([e] for e in a[0] if e[:3] not in [x[:3] for x in b[0]]), 'reordered')}"
    ids = [e[0] for e in b[0]]
    ids0 = [e[0] for e in a[0]]
    dup = [i for i in ids if ids.count(i) > max(1, ids0.count(i))]
    if dup:
        return f"message {dup[0]} is there twice"
    s, t = before.decode(), after.decode()
    flat = squash(t)
    for c in [e[3] for e in a[0]] + [c for _, c in a[1]]:
        if squash(c) not in flat:
            return f"comment {c!r}"
    about = {e[0]: squash(e[3]) for e in b[0]}
    for e in a[0]:
        if ids0.count(e[0]) == 1 and squash(e[3]) not in about.get(e[0], ""):
            return f"comment {e[3]!r} of {e[0]}"
    for rx in (TOK, COM):
        x, y = rx.findall(s), rx.findall(t)
        for k in set(x):
            if x.count(k) > y.count(k):
                return f"text {k}"
    return None


class Model:
    """What the migration must add, worked out from the scenario alone."""

    def __init__(self, sc):
        self.sc = sc
        self.abort = not any(sc["migrations"])  # the run may or must fail
        self.have = {}  # (ref, locale) -> [ids] | None
        self.added = []  # per Migrate: {path: [(id, after)]}
        self.items = {}
        for it in sc["items"]:
            for r in [it["ref"], *it.get("aliases", ())]:
                self.items[r] = it
            for lc in sc["locales"]:
                f = sc["files"].get(f"{ROOT}/{lc}/{it['rel']}")
                if f is None:
                    v = None
                elif "spec" in f:
                    v = [id for id, _, _, _ in pr.keyed(f["spec"])]
                else:
                    v = "bad"
                self.have[it["ref"], lc] = v
        self.loose = set()
        for script in sc["migrations"]:
            for mig in script:
                self.added.append(self.one(mig))

    def value(self, st, own, ref, lc):
        """("ok"|"none"|"raise"|"maybe", source ids)"""
        k = st["kind"]
        if k == "msg":
            return "ok", [tuple(x) for x in st.get("after", ())] or None
        if k == "none":
            return "none", []
        if k == "bad":
            return "maybe", None
        if k == "raise":
            if lc in st["locales"]:
                return ("none" if st["exc"] == "StopIteration" else "raise"), []
            return "ok", None
        if k == "copy":
            if st.get("pattern"):
                return "maybe", [tuple(st["src"])]
            pl = self.items[st["from"] or ref]["plocales"]
            src = own if st["from"] in (None, ref) else None if pl and lc not in pl else self.have.get((st["from"], lc))
            if src is None or src == "bad" or tuple(st["src"]) not in src:
                return "none", []
            o = self.items[st["from"] or ref]
            if st.get("replace") not in (None, True) and self.items[ref]["fmt"] != "properties":
                return "maybe", [tuple(st["src"])]
            if o["fmt"] != self.items[ref]["fmt"] or st.get("property") or st.get("variant") or st.get("value_only") and o["fmt"] in ("fluent", "xliff", "gettext", "webext", "android"):
                return "maybe", [tuple(st["src"])]
            return "ok", [tuple(st["src"])]
        if k == "entry":
            rs, ids = ["maybe"] if st.get("comment") and self.items[ref]["fmt"] == "plain_json" else [], []
            for x in [st["value"], *(st.get("props") or {}).values()]:
                r, i = self.value(x, own, ref, lc) if isinstance(x, dict) else ("ok", [])
                rs.append(r)
                ids += i or []
            for r in ("raise", "maybe"):
                if r in rs:
                    return r, ids
            if "none" in rs:
                return ("maybe" if st.get("allow_partial") else "none"), ids
            return "ok", ids
        raise AssertionError(k)

    def one(self, mig):
        out = {}
        files = self.sc["files"]
        for ref, steps in mig:
            it = self.items[ref]
            ref = it["ref"]
            f = files.get(it["src"])
            if f is None and self.sc["mode"] != "config":
                self.abort = True
                return out
            for lc in sorted(it["plocales"] or self.sc["locales"]):
                if self.abort:
                    return out
                path = f"{ROOT}/{lc}/{it['rel']}"
                own = self.have[ref, lc]
                secs = None
                if own == "bad":
                    continue
                if it["fmt"] == "plain_json" and (not own or own is None and not (f or {}).get("spec", {}).get("entries")):
                    self.abort = True  # {} is not of a known format
                    return out
                if own is None:
                    if it["fmt"] in NEED_REF and (f is None or "spec" not in f):
                        if it["fmt"] == "android" and f is not None:
                            self.abort = True
                        continue
                    own = []
                    if it["fmt"] in ("ini", "xliff"):
                        secs = {e["id"][0] for e in f["spec"]["entries"]}
                else:
                    own = list(own)
                    if it["fmt"] in ("ini", "xliff"):
                        secs = {x[0] for x in own}
                prev, changed, loose = [], [], (ref, lc) in self.loose
                for st in steps:
                    id = tuple(st["id"])
                    if id not in own:
                        r, ids = self.value(st, own, ref, lc)
                        if r in ("raise", "maybe") or r == "ok" and secs is not None and (id[0] not in secs or it["fmt"] == "xliff" and st["kind"] != "copy"):
                            self.abort = True
                            return out
                        if r == "ok":
                            # directly after the last of these
                            ids = [id] if ids is None else ids
                            if secs is not None:
                                ids = [x for x in ids if x[0] == id[0]]
                            pos = [i for i, x in enumerate(own) if x in ids or x in prev and (secs is None or x[0] == id[0])]
                            own.insert(pos[-1] + 1 if pos else len(own), id)
                            changed.append((id, own[pos[-1]] if pos and not loose else None))
                            if not pos:  # which section it goes to is not specified
                                loose = True
                                self.loose.add((ref, lc))
                    prev.append(id)
                if changed:
                    out[path] = out.get(path, []) + changed
                    self.have[ref, lc] = own
        return out


class _Migrate(Check):
    variants = 6
    keep = {"locales", "items", "src", "plocales"}
    kw: dict = {}
    allow = ("errno", "crash", "interrupt", "benign", "nomem")

    def scenarios(self, rng, tier):
        base = gen_migration(rng, **self.kw)
        base["faults"], base["runs"] = [], 1
        env_noise(rng, base)
        settle(rng, base)
        yield base
        log = self.trace(base)
        for _ in range(self.variants if tier == "quick" else self.variants * 4):
            sc = dict(base)
            env_noise(rng, sc)
            sc["runs"] = rng.choice([1, 1, 2, 3]) if self.prop != "M03" else rng.choice([1, 2, 3])
            sc["faults"] = []
            for op in range(sc["runs"]):
                pred = self.pred
                for f in plan(rng, log, allow=self.allow, pred=pred):
                    sc["faults"].append({**f, "op": op})
            if rng.random() < 0.1 and self.prop in ("M01", "M03"):
                sc["free"] = rng.choice([0, 1, 10, 40, 100, 300])
            yield sc

    def pred(self, e):
        # os.walk() and os.path.isdir() of the standard library take what they cannot
        # access as absent
        return e[1] not in ("scandir", "stat", "access")

    def run(self, sc, st):
        w = mkworld(sc)
        try:
            self.body(sc, st, w)
        finally:
            st.world(w)

    def body(self, sc, st, w):
        files = sc["files"]
        before = w.snapshot()
        bad = []
        cur = {p: w.read(p) for p, f in files.items() if "link" not in f}
        targets = {f"{ROOT}/{lc}/{it['rel']}" for it in sc["items"] for lc in sc["locales"]}
        cache = {}

        def check(p, b):
            k = (p, b)
            if k not in cache:
                if p not in targets or "spec" not in files[p]:
                    cache[k] = None if b == content(files[p]) else "it must not be changed"
                else:
                    cache[k] = lost(p, content(files[p]), b)
            return cache[k]

        def watch(world, path):
            world.quiet += 1
            try:
                for p in cur:
                    got = world.read(p)
                    if got != cur[p]:
                        cur[p] = got
                        r = check(p, got)
                        if r and not bad:
                            bad.append(f"{p} lost {r}: {show(got)} (after {world.log[-1][:4]}); before {show(content(files[p]))}")
                for p in targets:
                    if p not in files:
                        got = world.read(p)
                        if got is not None and (p, got) not in cache:
                            cache[p, got] = None if parsed(p, got) is not None else "torn"
                            if cache[p, got] and not bad:
                                bad.append(f"{p} is created torn: {show(got)} (after {world.log[-1][:4]})")
            finally:
                world.quiet -= 1

        w.watch = watch
        if "free" in sc:
            w.capacity = w.used() + sc["free"]
        w.faults = sc["faults"]
        hidden = set()
        model = Model(sc)
        for op in range(sc["runs"]):
            w.op = op
            pre = w.snapshot()
            f0, full0 = len(w.fired_faults), w.full_hits
            o = run_migrate(w, sc, sc["args"])
            st.out(o)
            need(not bad, "damaged-file", bad[0] if bad else "")
            post = w.snapshot()
            hard = [sc["faults"][i] for i in w.fired_faults[f0:] if i in hard_fired(w)]
            extra = {p for p in set(post) - set(before) - hidden if isinstance(post[p], (bytes, tuple)) and p not in targets}
            for p in extra:
                need(o.crashed or any(f["kind"] == "unlink" for f in hard), "leftover-file", f"exit {o.exit} left {p}")
                need(p.rsplit("/", 1)[1].startswith("."), "visible-leftover", p)
            hidden |= extra
            for p in set(pre) - set(post) - hidden:
                need(False, "file-gone", p)
            for p, f in files.items():
                if "link" in f or p not in targets:
                    need(post.get(p) == before.get(p), "unrelated-file-changed", f"{p}: {show(before.get(p))} became {show(post.get(p))}")
            if not hard and not (w.full_hits > full0) and not o.crashed:
                st.probe(f"undisturbed:{o.exit}")
                if not model.abort:
                    need(o.exit == 0, "failed", f"exit {o.exit} without a reason: {o.brief()}")
                    self.expect(sc, w, model, before if op == 0 else None)
            if self.prop == "M05":
                self.m05(sc, st, w, op, o.exit == 0)
        if self.prop == "M03":
            self.m03(sc, st, w, hidden)

    def expect(self, sc, w, model, before=None):
        """After a whole run: every file holds exactly what it must."""
        for (ref, lc), ids in model.have.items():
            it = model.items[ref]
            p = f"{ROOT}/{lc}/{it['rel']}"
            b = w.read(p) if "link" not in sc["files"].get(p, ()) else None
            if ids is None or ids == "bad":
                if ids is None:
                    need(b is None, "file-created", f"{p} should not be created: {show(b)}")
                continue
            need(b is not None, "not-created", f"{p} should have been created with {ids}")
            r = parsed(p, b)
            got = [e[0] for e in r[0]]
            dedup = set(ids)
            need(set(got) == dedup, "wrong-messages", f"{p}: messages {got}, expected {ids}")

    def m03(self, sc, st, w, hidden):
        w.faults, w.capacity = [], None
        w.op = 98
        o = run_migrate(w, sc, sc["args"])
        ref = mkworld({**sc, "list_seed": 0, "bufsize": 8192})
        o2 = run_migrate(ref, sc, sc["args"])
        want = ref.snapshot()
        got = {k: v for k, v in w.snapshot().items() if k not in hidden}
        d = diff(got, want)
        if o2.exit != 0:  # never completes: a skipped step may let it go further
            st.probe("cannot-complete")
            return
        if d is not None and any(isinstance(v, (bytes, tuple)) for k, v in {k: v for k, v in {**got, **want}.items() if got.get(k, 0) != want.get(k, 0)}.items()):
            need(False, "not-converged", f"after {sc['runs']} disturbed runs and one undisturbed: {d}")
        need(o.exit == o2.exit, "exit-differs", f"exit {o.exit} after an interruption, otherwise {o2.exit}: {o.brief()} {o2.brief()}")
        w.op = 99
        run_migrate(w, sc, sc["args"])
        d = diff({k: v for k, v in w.snapshot().items() if k not in hidden}, got)
        need(d is None, "not-stable", f"running it again: {d}")


class M01(_Migrate):
    prop = "M01"
    quick_seeds = 2500
    rule = ("1-3 migration maps over 1-3 generated files in 10 formats and 1-3 locales, by config or discovery, run 1-3 times with errors, kills, interrupts, full disk, out-of-memory and failing "
            "migration functions; every file is checked at every instant for what it held at first. Non-trivial: at least one fault fired.")


class M02(_Migrate):
    prop = "M02"
    quick_seeds = 2500
    kw = {"broken": 0.4, "faulty": 0.15}
    rule = ("As M01, with many broken, non-UTF-8, dangling or unreadable localization files, and faults where these are opened, read or looked up. "
            "Non-trivial: at least one fault fired.")

    def pred(self, e):
        return e[1] in ("open", "read", "fstat", "lstat", "close") and e[2].startswith("/sim/")


class M03(_Migrate):
    prop = "M03"
    quick_seeds = 2000
    allow = ("errno", "crash", "interrupt", "benign")
    kw = {"chain": 0.3}
    rule = ("As M01, with 1-3 disturbed runs, then one undisturbed, compared with one undisturbed run on the original files, then one more run. "
            "Non-trivial: at least one fault fired.")


class M04(_Migrate):
    prop = "M04"
    kw = {"chain": 0.15, "faulty": 0.1}
    quick_seeds = 2500
    rule = ("Generated migrations applied by API, first dry and then not, several times, with errors in between; every result is compared with a model, with the changes on disk "
            "and with the dry result. Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        for sc in super().scenarios(rng, tier):
            sc = dict(sc)
            sc["faults"] = [f for f in sc["faults"] if f["action"] != "crash"]
            yield sc

    def apply(self, w, sc, mig, dry):
        from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths

        def go():
            m = migspec.build(mig)
            root = relpath(ROOT, sc["at"]) if sc.get("at") else ROOT
            if sc["mode"] == "config":
                m.set_paths(L10nConfigPaths(root + "/l10n.toml"))
            elif sc["mode"] == "root":
                m.set_paths(root)
            else:
                m.set_paths(L10nDiscoverPaths(root, ref_root=relpath(REFS, ROOT) if sc.get("at") else REFS))
            return {normpath(join(w.cwd, p)): v for p, v in m.apply(dry_run=dry).items()}

        w.cwd = sc.get("at") or "/sim"
        return run_callable(w, go)

    @staticmethod
    def made_from(s, e):
        """Ids of the messages that a step's function names, None if that is not certain; e is the message made."""
        k = s["kind"]
        if k == "msg":
            return {tuple(x) for x in s.get("after", ())}
        if k == "copy":
            return None if s.get("default") else {tuple(s["src"])}
        if k == "entry":
            out = set()
            for n, x in {None: s["value"], **(s.get("props") or {})}.items():
                if isinstance(x, dict):
                    if s.get("allow_partial") and (not texts(e.value) if n is None else n not in e.properties):
                        if n is None:
                            return None
                        continue
                    i = M04.made_from(x, e)
                    if i is None:
                        return None
                    out |= i
            return out
        return set()

    def places(self, model, mig, p, pre, post, rep, st):
        """Where messages were added, whether or not the model could tell that they would be."""
        it = next(it for it in model.items.values() if p.endswith("/" + it["rel"]))
        if it["fmt"] == "plain_json":
            return
        ids = ordered(p, post)
        tup = [i for i in ids if isinstance(i, tuple)]
        if len(set(tup)) != len(tup):
            return
        have = {i for i in ordered(p, pre) if isinstance(i, tuple)} if pre is not None else set()
        lost = [i for i in have if i not in tup]
        if lost:
            return
        secs = it["fmt"] in ("ini", "xliff")
        for ref, steps in mig:
            if model.items[ref] is not it:
                continue
            prev = set()
            for s in steps:
                id = tuple(s["id"])
                e = next((e for i, e in rep if id == i or id[1:] == i), None)
                if id not in have and id in tup and e is not None:
                    have.add(id)
                    src = self.made_from(s, e)
                    if src is not None:
                        seq = [i for i in ids if not isinstance(i, tuple) or i in have]
                        at = seq.index(id)
                        cand = [j for j, i in enumerate(seq) if isinstance(i, tuple) and i != id and i in src | prev and (not secs or i[:-1] == id[:-1])]
                        if cand:
                            st.probe("placed")
                            want = cand[-1] + (cand[-1] < at)
                            need(at == want, "wrong-place", f"{p}: {id} should follow {seq[cand[-1]]}: {seq}")
                prev.add(id)

    def body(self, sc, st, w):
        model = Model(sc)
        w.faults = []
        migs = [m for s in sc["migrations"] for m in s]
        ok = not model.abort
        for op in range(sc["runs"]):
            for k, mig in enumerate(migs):
                pre = w.snapshot()
                w.op = -1
                w.faults = []
                dry = self.apply(w, sc, mig, True)
                st.out(dry)
                d = diff(pre, w.snapshot())
                need(d is None, "dry-run-changed", d)
                w.op = op
                w.faults = sc["faults"]
                n0 = len(w.fired_faults)
                o = self.apply(w, sc, mig, False)
                st.out(o)
                hard = [i for i in w.fired_faults[n0:] if i in hard_fired(w)]
                post = w.snapshot()
                if hard:
                    ok = False
                if o.exit != 0:
                    st.probe("failed")
                    # with the files in a state the model does not follow, a step may be tried that cannot work
                    need(hard or model.abort or dry.exit != 0 or sc["chain"] or not ok and "Error serializing" in (o.exc or ""), "failed", f"dry run worked, but {o.brief()}")
                    continue
                st.probe("applied")
                res = {p: [(tuple(e.id), e) for e in v] for p, v in o.value.items()}
                changed = {p for p in set(pre) | set(post) if pre.get(p) != post.get(p) and isinstance(post.get(p), bytes)}
                need(changed == set(res), "wrong-files", f"reported {sorted(res)}, changed {sorted(changed)}")
                for p, rep in res.items():
                    a = (parsed(p, pre[p]) if p in pre else None) or ([], [])
                    b = parsed(p, post[p])
                    need(b is not None, "unreadable-result", f"{p}: {show(post[p])}")
                    had = {e[0] for e in a[0]}
                    new = [e for e in b[0] if e[0] not in had]
                    need(len(new) == len(rep), "wrong-report", f"{p}: reported {[i for i, _ in rep]}, added {[e[0] for e in new]}")
                    left = list(new)
                    for i, e in rep:
                        hit = next((x for x in left if x[0] == i or x[0][-len(i):] == i and len(x[0]) == len(i) + 1), None)
                        need(hit is not None, "not-in-file", f"{p}: {i} was reported, added {[e[0] for e in new]}")
                        left.remove(hit)
                        s, t = str(e), str(hit)
                        need(set(TOK.findall(s)) <= set(TOK.findall(t)), "other-text", f"{p}: reported {s}, added {t}")
                if not hard:
                    for p in res:
                        self.places(model, mig, p, pre.get(p), post[p], res[p], st)
                if not sc["chain"] and not hard:
                    need(dry.exit == 0, "dry-run-failed", f"{dry.brief()}")
                    x = {p: [(e.id, e.value, e.properties, squash(e.comment), e.meta) for e in v] for p, v in dry.value.items()}
                    y = {p: [(e.id, e.value, e.properties, squash(e.comment), e.meta) for e in v] for p, v in o.value.items()}
                    need(x == y, "dry-run-differs", f"dry {x}, real {y}")
                if ok and op == 0:
                    want = model.added[k]
                    got = {p: [i for i, _ in v] for p, v in res.items()}
                    exp = {p: [i for i, _ in v] for p, v in want.items()}
                    need(set(got) == set(exp), "wrong-files", f"migration {k}: changed {sorted(got)}, expected {sorted(exp)}")
                    for p in exp:
                        need(len(got[p]) == len(exp[p]) and all(g == e or g == e[-len(g):] for g, e in zip(got[p], exp[p])), "wrong-additions", f"{p}: {got[p]}, expected {exp[p]}")
                        fmt = next(it["fmt"] for it in sc["items"] if p.endswith("/" + it["rel"]))
                        if fmt in ("plain_json",):
                            continue
                        ids = ordered(p, post[p])
                        for j, (i, after) in enumerate(want[p]):
                            if after is None:
                                continue
                            at = ids.index(i)
                            # other additions may have come in between
                            k2 = at - 1
                            while k2 >= 0 and ids[k2] != after and ids[k2] in [x for x, _ in want[p][j + 1:]]:
                                k2 -= 1
                            need(k2 >= 0 and ids[k2] == after, "wrong-place", f"{p}: {i} should follow {after}: {ids}")
        if ok:
            self.expect(sc, w, model)


def entries(path, b):
    """{id: entry} of a file, the first of each; None if it is not there or is broken."""
    try:
        res = parse_resource(path, b)
    except Exception:  # noqa: BLE001
        return None
    out = {}
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                out.setdefault(s.id + e.id, e)
    return out


def default(msg):
    if isinstance(msg, SelectMessage):
        return next((p for k, p in msg.variants.items() if all(isinstance(x, CatchallKey) for x in k)), None)
    return msg.pattern


def flat(pattern):
    """The text and the variables of a pattern, as any format could hold them."""
    out = ""
    for ph in pattern:
        if isinstance(ph, str):
            out += ph
        elif isinstance(ph, Expression) and isinstance(ph.arg, str) and ph.function is None:
            out += ph.arg
        else:
            out += f"\0{ph.arg.name if isinstance(ph, Expression) and isinstance(ph.arg, VariableRef) else ''}\0"
    return out.split("\0")


def texts(msg):
    """All text of a message."""
    return squash("".join(ph for p in ([msg.pattern] if isinstance(msg, PatternMessage) else msg.variants.values()) for ph in p if isinstance(ph, str)))


class M05(_Migrate):
    prop = "M05"
    quick_seeds = 2500
    kw = {"chain": 0.3, "faulty": 0.15, "broken": 0.1}
    allow = ("errno", "crash", "interrupt", "benign")
    rule = ("As M01, with copies between files and formats, of values, properties and variants, with replacements, chained copies, and the same keys in several sections; after each run, "
            "every message that the migration added to any file is compared with what its step defines for the locale of that file. A step whose source was there from the start must have added its message when the run exits 0. Non-trivial: at least one fault fired.")

    def m05(self, sc, st, w, op, ok):
        cache = {}

        def have(it, lc):
            p = f"{ROOT}/{lc}/{it['rel']}"
            if p not in cache:
                b = w.read(p) if "link" not in sc["files"].get(p, ()) else None
                f = sc["files"].get(p)
                cache[p] = None if b is None else entries(p, b), (entries(p, content(f)) or {}) if f and "link" not in f else {}
            return cache[p]

        items = {r: it for it in sc["items"] for r in [it["ref"], *it.get("aliases", ())]}
        defs = {}
        for ref, steps in (m for script in sc["migrations"] for mig in script for m in mig):
            for s in steps:
                defs.setdefault((items[ref]["ref"], tuple(s["id"])), []).append((ref, s))
        n = 0
        for it in sc["items"]:
            for lc in sc["locales"]:
                now, at_first = have(it, lc)
                for id, e in (now or {}).items():
                    if id in at_first:
                        continue
                    why = []
                    for ref, s in defs.get((it["ref"], id), ()):
                        r = self.differs(s, e, it, items, lc, have)
                        if r is None:
                            break
                        why.append(r)
                    else:
                        need(False, "wrong-message", f"{lc} {it['rel']}: {id} is {e}: {'; '.join(why) or 'no step adds it'} (run {op})")
                    n += 1
        st.probe("added:" + str(min(n, 5)))
        if ok:
            self.complete(sc, st, items, have, op)

    def complete(self, sc, st, items, have, op):
        """Nothing that has a source is left out by a run that reports success."""
        n = 0
        for ref, steps in (m for script in sc["migrations"] for mig in script for m in mig):
            it = items[ref]
            for lc in it["plocales"] or sc["locales"]:
                now, _ = have(it, lc)
                if now is None:
                    continue
                for s in steps:
                    if self.due(s, it, items, lc, have):
                        n += 1
                        need(tuple(s["id"]) in now, "not-added", f"{lc} {it['rel']}: {s['id']} is not there, but {s} (run {op})")
        st.probe("due:" + str(min(n, 5)))

    def due(self, s, it, items, lc, have):
        if isinstance(s, str):
            return True
        k = s["kind"]
        if k == "raise":
            return lc not in s["locales"]
        if k == "none":
            return False
        if k == "copy":
            o = items[s["from"]] if s["from"] else it
            if o["plocales"] and lc not in o["plocales"]:
                return bool(s.get("default"))
            src = have(o, lc)[1].get(tuple(s["src"]))
            if src is None:  # it may get added
                return bool(s.get("default"))
            if s.get("property"):
                return s["property"] in src.properties or bool(s.get("default"))
            return True
        if k == "entry":
            # nothing is added if a function raises StopIteration, as get_pattern() does
            return all(s.get("allow_partial") and x is not s["value"] and not (isinstance(x, dict) and x.get("pattern")) or self.due(x, it, items, lc, have) for x in [s["value"], *(s.get("props") or {}).values()])
        return True

    def source(self, c, it, items, lc, have):
        o = items[c["from"]] if c["from"] else it
        now, _ = have(o, lc)
        if o is not it and o["plocales"] and lc not in o["plocales"]:
            now = None
        return o, None if now is None else now.get(tuple(c["src"]))

    def message(self, c, msg, it, items, lc, have):
        """What is wrong with a message made from `c`, or None."""
        if isinstance(c, str):
            c = {"kind": "msg", "text": c}
        if c["kind"] in ("msg", "raise", "bad"):
            if c["kind"] == "raise" and lc in c["locales"]:
                return "its step fails"
            got = texts(msg)
            return None if got == squash(c["text"]) or c["kind"] == "bad" and squash(c["text"]) in got else f"it should be {c['text']!r}"
        if c["kind"] == "none":
            return "its step adds nothing"
        o, src = self.source(c, it, items, lc, have)
        if src is None:
            if c.get("default"):
                return self.message(c["default"], msg, it, items, lc, have)
            return f"there is no {c['src']} to copy"
        if c.get("property"):
            m = src.properties.get(c["property"])
            if m is None and c.get("default"):
                return self.message(c["default"], msg, it, items, lc, have)
            if m is None:
                return f"no property {c['property']} to copy"
        else:
            m = src.value
        if c.get("property") or c.get("variant") or c.get("pattern"):
            p = default(m)
            if c.get("variant") and isinstance(m, SelectMessage):
                p = m.variants.get((c["variant"],), p)
            if p is None:
                return None
            m = PatternMessage(list(p))
        m = deepcopy(m)
        if c.get("replace"):
            f = migspec.REPLACE[c["replace"]]
            for p in [m.pattern] if isinstance(m, PatternMessage) else m.variants.values():
                for i, ph in enumerate(p):
                    r = f(ph)
                    if r is not None:
                        p[i] = r
        if o["fmt"] != it["fmt"]:
            x, y = (sorted(set(TOK.findall(str(q)))) for q in (m, msg))
            return None if x == y else f"it should be {m}"
        if isinstance(m, PatternMessage):
            if not isinstance(msg, PatternMessage):
                # a plain message of a Gettext plural
                return None if it["fmt"] == "gettext" else f"it should be {m}"
            x, y = flat(m.pattern), flat(msg.pattern)
            if c.get("replace") == "drop":  # no space is kept at the end
                x, y = ([squash(t) for t in v] for v in (x, y))
            return None if x == y else f"it should be {m}"
        if not isinstance(msg, SelectMessage):
            return f"it should be {m}"
        x, y = ({tuple(str(k) for k in ks): flat(p) for ks, p in q.variants.items()} for q in (m, msg))
        return None if x == y else f"it should be {m}"

    def differs(self, s, e, it, items, lc, have):
        c, props = s, {}
        if s["kind"] == "entry":
            c, props = s["value"], s.get("props") or {}
        if not (s.get("allow_partial") and s["kind"] == "entry" and isinstance(c, dict) and not texts(e.value)):
            r = self.message(c, e.value, it, items, lc, have)
            if r:
                return r
        if s["kind"] == "entry":
            if set(e.properties) - set(props) or not s.get("allow_partial") and set(props) - set(e.properties):
                return f"its properties should be {sorted(props)}"
            for k, m in e.properties.items():
                r = self.message(props[k], m, it, items, lc, have)
                if r:
                    return f"property {k}: {r}"
            # XLIFF comments are documented to be ignored in favour of notes
            if "comment" in s and it["fmt"] != "plain_json" and not (it["fmt"] == "xliff" and any(m.key == "note" for m in e.meta)) and squash(s["comment"]) not in squash(e.comment):
                return f"its comment should be {s['comment']!r}"
            if "comment" in s or isinstance(c, str):
                return None
        if isinstance(c, dict) and c["kind"] == "copy" and not any(c.get(k) for k in ("value_only", "property", "variant", "pattern")):
            o, src = self.source(c, it, items, lc, have)
            if src is None:
                return None
            if s["kind"] == "copy":
                if not c.get("replace") and {k: m for k, m in e.properties.items()} != src.properties:
                    return f"its properties should be {src.properties}"
                if set(e.properties) != set(src.properties):
                    return f"its properties should be {sorted(src.properties)}"
            first = have(o, lc)[1].get(tuple(c["src"]))  # a comment at the start of a file may get added to it
            if first and it["fmt"] not in ("plain_json",) and squash(first.comment) not in squash(e.comment):
                return f"its comment should be {first.comment!r}"
            if it["fmt"] not in ("xliff",) and e.meta != src.meta:
                return f"its metadata should be {src.meta}"
        return None
