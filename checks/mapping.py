"""The mapping of reference paths to target paths, and back (P04)."""
from __future__ import annotations

import re
from posixpath import dirname, join, normpath, relpath

from sim.engine import Check, HarnessError
from sim.faults import at, plan

from .common import mkworld, need, run_callable
from .paths import ORDERS, gen_tree, text_for

from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths

STARS = re.compile(r"(\*\*/\*|\*\*/|\*\*|\*)")
ROOTS = ["p", "p", "a b", "c++ [x]", "(y", "q?", "d.o.t", "$z^", "é|e"]
LITS = ["s", "s.x", "a+b", "(w)", "[v]", "u|t", "k^$"]
ANDROID = {"fr": "fr", "de": "de", "pt-BR": "pt-rBR", "he": "iw"}
LANG = {"lang": str.lower, "lc": lambda x: x.replace("-", "_")}
LOCALES = ["fr", "de", "pt-BR", "he"]


def variables(lc):
    return {"locale": lc, "android_locale": ANDROID[lc], "lang": lc.lower(), "lc": lc.replace("-", "_")}


def fill(pattern, binding):
    b = iter(binding)
    return "".join(next(b) if i % 2 else x for i, x in enumerate(STARS.split(pattern)))


def expand(tgt, lc):
    for k, v in variables(lc).items():
        tgt = tgt.replace("{" + k + "}", v)
    return tgt


def gen_paths(rng, k, lang):
    """One [[paths]] entry with its files, by construction."""
    lit = f"{rng.choice(LITS)}.{k}"
    names = ["name", "x y", "c.d", "a+b", "[n]", "é", "n\nl"]
    dirs = ["sub/", "sub/deep/", "a.b/", "", f"{lit}/", "s+/"]
    one = lambda: rng.choice(names)  # noqa: E731
    some = lambda: rng.choice(dirs)  # noqa: E731
    tail, tt, bind = rng.choice([
        ("/**/*.ftl", "/**/*.ftl", lambda: [some() + one()]),
        ("/*.ftl", "/*.ftl", lambda: [one()]),
        ("/**", "/**", lambda: [some() + one() + ".ftl"]),
        ("/**/n.ftl", "/**/m.ftl", lambda: [some()]),
        ("/*-x.ftl", "/y-*.ftl", lambda: [one()]),
        ("/n.ftl", "/o.ftl", lambda: []),
        ("/*.pot", "/*.po", lambda: [one()]),
        ("/**/*.pot", "/**/*.pot", lambda: [some() + one()]),
        ("/n.pot", "/sub/n.pot", lambda: []),
        ("/*/i/*.ftl", "/*-*.ftl", lambda: [rng.choice(["one", "two", "i"]), rng.choice(["n", "m"])]),
        ("/*/i/**/*.ftl", "/*/j/**/*.ftl", lambda: [one(), rng.choice(["", "i/", "i/i/", "j/"]) + one()]),
        ("/*/i/**/*.ftl", "/i/*/**/*.ftl", lambda: [rng.choice(["i", "one"]), rng.choice(["", "i/", "j/i/"]) + one()]),
    ])
    pre = ["{locale}/", "{locale}/", "{l10n_base}/{locale}/", "values-{android_locale}/", "x/{locale}/", "{locale}/LC+M/{locale}/", "../l/{locale}/", "{l10n_base}/x/{locale}.d/", "{nm}/{locale}/"]
    if lang:
        pre += ["{lang}/", "z/{lc}.l/"]
    return {"ref": rng.choice(["en/", "src/en/", ""]) + lit + tail, "tgt": rng.choice(pre) + f"t.{k}" + tt,
            "files": sorted({tuple(bind()) for _ in range(rng.choice([1, 2, 3]))}), "locales": rng.choice([None, None, None, ["fr"], ["de", "fr"], ["pt-BR", "he"]])}


class P04(Check):
    prop = "P04"
    quick_seeds = 3000
    keep = {"root", "path", "base"}
    rule = ("A generated config (wildcards of every kind, variables, env, includes with base paths of their own, directories with special characters in their names) or discovered tree, given by an absolute path or relative to a drawn "
            "working directory, is loaded under several listing orders, with short reads and files that vanish; every reference path is mapped to its targets and back, and compared with what the tree was built from, also after its base and locales are set. "
            "Non-trivial: a fault fired, or the listing orders or working directories differed.")

    def scenarios(self, rng, tier):
        for _ in range(2 if tier == "quick" else 6):
            base = self.config(rng) if rng.random() < 0.75 else {"kind": "discover", "files": gen_tree(rng), "ref_root": rng.choice([None, None, ".", "src"])}
            base["root"] = rng.choice(ROOTS)
            base["faults"] = []
            root = "/sim/" + base["root"]
            ats = [None, None, "/sim", root, root, root + "/en", root + "/w", "/sim/l10n/fr"]
            if base.get("force"):  # given as absolute paths
                ats = [None]
            base["views"] = [[rng.choice(ats), rng.choice(ORDERS)] for _ in range(rng.choice([1, 2, 3]))]
            yield base
            log = self.trace(base)
            for _ in range(2 if tier == "quick" else 6):
                sc = dict(base)
                sc["bufsize"] = rng.choice([8192, 1, 7, 64])
                fs = plan(rng, log, allow=("benign",), pred=lambda e: e[1] == "read")
                gone = [e for e in log if e[1] == "stat" and e[2].endswith((".ftl", ".pot"))]
                if sc["kind"] == "config" and gone and not any("also" in p for c in sc["cfgs"] for p in c["paths"]) and rng.random() < 0.5:
                    e = rng.choice(gone)
                    fs = [*fs, at(e, action="env", do={"do": "remove", "path": e[2]})]
                sc["faults"] = fs
                yield sc

    def config(self, rng):
        n = rng.choice([1, 1, 2, 3])
        cfgs, k = [], 0
        lang = rng.random() < 0.3
        for i in range(n):
            c = {"path": "l10n.toml" if i == 0 else rng.choice(["", "in/", "in/c/"]) + f"c{i}.toml", "base": rng.choice([None, None, ".", "..", "w"]) if i else rng.choice([None, ".", "w"]),
                 "locales": rng.choice([None, ["fr", "de"], ["fr", "de", "he"], ["pt-BR", "fr"]]), "paths": [], "up": rng.randrange(i) if i else None}
            for _ in range(rng.choice([1, 1, 2, 3])):
                p = gen_paths(rng, k, lang)
                c["paths"].append(p)
                r = rng.random()
                if r < 0.12:  # the same files, for other locales at another place
                    lcs = rng.choice([None, ["fr"], ["de", "he"]])
                    p["locales"] = p["locales"] and rng.choice([None, ["pt-BR"]])
                    if lcs is None and p["locales"] is None:
                        lcs = ["fr"]
                    p["also"] = {"tgt": p["tgt"].replace(f"t.{k}", f"t.{k}b"), "locales": lcs, "first": rng.random() < 0.5}
                elif r < 0.24 and p["tgt"].endswith("/**/*.ftl") and p["tgt"].count("*") == 3:  # a target that two templates match
                    q = {**p, "ref": f"oth.{k}/*.ftl", "tgt": p["tgt"].replace("/**/*.ftl", "/q.q/*.ftl"), "files": [[rng.choice(["name", "é"])]]}
                    c["paths"].insert(rng.choice([len(c["paths"]) - 1, len(c["paths"])]), q)
                k += 1
            cfgs.append(c)
        return {"kind": "config", "cfgs": cfgs, "lang": lang, "newbase": rng.choice([None, None, "/sim/l10n", "/sim/o/u"]), "newlocales": rng.choice([0, 0, None, ["de", "he"]]),
                "force": rng.random() < 0.2}

    def paths(self, c):
        """The [[paths]] entries of a config, in order."""
        out = []
        for i, p in enumerate(c["paths"]):
            out.append(p)
            if p.get("also"):
                p = out[-1] = {**p, "twin": i}
                out.insert(len(out) - p["also"].get("first", False), {**p, **p["also"]})
        return out

    def place(self, sc, c):
        return normpath(join("/sim", sc["root"], dirname(c["path"]), c["base"] or "."))

    def tree(self, sc):
        root = join("/sim", sc["root"])
        if sc["kind"] == "discover":
            return {join(root, f): {"text": text_for(f)} for f in sc["files"]}
        out = {}
        for i, c in enumerate(sc["cfgs"]):
            here = self.place(sc, c)
            s = "" if c["base"] is None else f'basepath = "{c["base"]}"\n'
            if c["locales"]:
                s += f"locales = {c['locales']}\n".replace("'", '"')
            s += '[env]\nnm = "q.e"\n'
            for p in self.paths(c):
                s += f'[[paths]]\nreference = "{p["ref"]}"\nl10n = "{p["tgt"]}"\n'
                if p["locales"]:
                    s += f"locales = {p['locales']}\n".replace("'", '"')
                for b in p["files"]:
                    f = join(here, fill(p["ref"], b))
                    out[f] = {"text": "a = b\n"}
                    if "**" not in p["ref"]:  # similar names, not meant
                        d, _, e = f.rpartition(".")
                        out[f"{d}X{e}"] = out[f + "Z"] = {"text": "a = b\n"}
            for j, x in enumerate(sc["cfgs"]):
                if x["up"] == i:
                    s += f'[[includes]]\npath = "{relpath(join(root, x["path"]), here)}"\n'
            out[join(root, c["path"])] = {"text": s}
        return out

    def run(self, sc, st):
        outs = []
        for a, order in sc["views"]:
            w = mkworld({"list_seed": order, "bufsize": sc.get("bufsize", 8192), "at": a}, self.tree(sc))
            w.faults = sc["faults"]
            w.cwd = a or "/sim"
            try:
                o = run_callable(w, lambda: self.config_view(sc, a) if sc["kind"] == "config" else self.discover_view(sc, a))
                st.out(o)
                gone = {w.faults[i]["path"] for i in w.fired_faults if w.faults[i]["action"] == "env"}
            finally:
                st.world(w)
            if sc["kind"] == "config":
                need(o.exit == 0, "config-refused", f"from {a or 'anywhere'}: {o.exc}")
                self.check_config(sc, st, o.value, gone, a)
            else:
                if o.exit != 0:
                    need(o.exc_type == "MissingSourceDirectoryError", "discovery-failed", f"from {a or 'anywhere'}: {o.exc}")
                    st.probe("no-source")
                else:
                    self.check_discover(sc, st, o.value, a)
            outs.append((o.exit, o.value, gone))
        if len({str(v) for v in sc["views"]}) > 1:
            st.nontrivial = True
        for x, v in zip(outs, sc["views"]):
            if not x[2] and not outs[0][2]:
                need(x[:2] == outs[0][:2], "depends-on-environment", f"in {sc['views'][0]}: {outs[0][:2]}; in {v}: {x[:2]}")

    # -- what one process sees -------------------------------------------------
    def config_view(self, sc, a):
        full = lambda p: p and normpath(join(a or "/sim", p))  # noqa: E731
        given = lambda p: relpath(p, a) if a else p  # noqa: E731
        kw = {"locale_map": LANG} if sc["lang"] else {}
        root = join("/sim", sc["root"])
        if sc["force"]:
            kw["force_paths"] = [given(p) for p in self.forced(sc)]
        p = L10nConfigPaths(given(root + "/l10n.toml"), **kw)
        steps = [self.look(sc, p, full, given)]
        if sc["newbase"]:
            p.base = given(sc["newbase"])
            steps.append(self.look(sc, p, full, given))
        if sc["newlocales"] != 0:
            p.locales = sc["newlocales"]
            steps.append(self.look(sc, p, full, given))
        return steps

    def forced(self, sc):
        here = self.place(sc, sc["cfgs"][0])
        return [join(here, fill(p["ref"], [x + "zz" if i == len(p["files"][0]) - 1 and not x.endswith(("/", ".ftl")) else x for i, x in enumerate(p["files"][0])]))
                for p in sc["cfgs"][0]["paths"] if p["files"] and p["files"][0] and "/**" not in p["ref"]] + [here + "/nothing/like/it.ftl"]

    def look(self, sc, p, full, given):
        fm = lambda r: None if r is None else [full(r[0]), r[1]]  # noqa: E731
        out = {"refs": sorted(map(full, p.ref_paths)), "all": sorted([full(r), full(t), l] for (r, t), l in p.all().items()), "base": full(p.base),
               "locales": sorted(p.all_locales), "target": {}, "find": {}}
        for (r, t), _ in p.all().items():
            for spell in {given(full(r)) if given("/sim") == "/sim" else "", relpath(full(r), full(p.ref_root))} - {""}:
                for lc in [None, *LOCALES]:
                    x, l = p.target(spell, locale=lc)
                    out["target"][f"{full(r)} {lc}"] = [full(x), sorted(l)]
                    if spell.endswith(".pot"):
                        y, m = p.target(spell[:-1], locale=lc)
                        if (x, l) != (y, m):
                            out["target"][f"{full(r)} {lc}"] = [["for .po", y], sorted(m)]
            for lc in LOCALES:
                f = full(p.format_target_path(t, lc))
                out["find"][f] = fm(p.find_reference(f))
                if fm(p.find_reference(relpath(f, full(p.base)))) != out["find"][f]:
                    out["find"][f] = "differs for the path relative to the base"
                for no in {re.sub(r"/t\.(\d+)", r"/tX\1", f), f + "/none", f[:-4] + "X" + f[-3:] if "/**" not in r else f + "/none"}:
                    out["find"]["-" + no] = fm(p.find_reference(no))
        return out

    def check_config(self, sc, st, steps, gone, a):
        names = ["as loaded"]
        base, locales = None, 0
        self.step(sc, st, steps[0], gone, base, locales, "as loaded")
        i = 1
        if sc["newbase"]:
            base = sc["newbase"]
            self.step(sc, st, steps[i], gone, base, locales, f"with base {base}")
            i += 1
        if sc["newlocales"] != 0:
            locales = sc["newlocales"]
            self.step(sc, st, steps[i], gone, base, locales, f"with base {base} and locales {locales}")
        del names

    def step(self, sc, st, v, gone, newbase, newlocales, when):
        refs, all_, target, find, every = [], [], {}, {}, set()
        cfgs = sc["cfgs"]

        def valid(c, lc, p):
            for _ in cfgs:
                own = c["locales"] if newlocales == 0 else newlocales
                if own and lc not in own:
                    return False
                if c["up"] is None:
                    return p["locales"] is None or lc in p["locales"]
                c = cfgs[c["up"]]
            raise HarnessError("not a tree")

        for c in cfgs:
            src = self.place(sc, c)
            base = newbase or src
            own = c["locales"] if newlocales == 0 else newlocales
            every |= set(own or ())
            for p in self.paths(c):
                bs = [tuple(b) for b in p["files"]]
                if sc["force"] and c is cfgs[0]:
                    n = [f for f in self.forced(sc)]
                    bs += [b2 for b in bs[:1] for b2 in [tuple(x + "zz" if i == len(b) - 1 and not x.endswith(("/", ".ftl")) else x for i, x in enumerate(b))]
                           if b and "/**" not in p["ref"] and join(src, fill(p["ref"], b2)) in n and b2 not in bs]
                live = []
                for b in bs:
                    r = join(src, fill(p["ref"], b))
                    if r in gone and r not in v["refs"]:
                        continue
                    live.append(b)
                    if r not in refs:
                        refs.append(r)
                    t = fill(p["tgt"].replace("{nm}", "q.e"), b)
                    if t.startswith("{l10n_base}/"):
                        t = t[12:]
                    if t.endswith(".pot"):
                        t = t[:-1]
                    t = normpath(join(base, t))
                    all_.append([r, t, p["locales"] or own or None])
                    lcs = set(p["locales"] or own or ())
                    if p["locales"] and own:
                        lcs &= set(own)
                    dead = p["locales"] and own and not lcs
                    tw = [q for q in self.paths(c) if q["tgt"] != p["tgt"] and q.get("twin") == p["twin"]] if "twin" in p else []
                    if not tw:
                        target[f"{r} None"] = [None, []] if dead else [t, sorted(lcs)]
                    elif p["locales"] and tw[0]["locales"]:  # the last one which has a locale
                        if not dead:
                            target[f"{r} None"] = [t, sorted(lcs)]
                        else:
                            target.setdefault(f"{r} None", [None, []])
                    for lc in LOCALES:
                        if valid(c, lc, p) and not (p["locales"] is None and any(lc in (q["locales"] or ()) for q in tw)):
                            target[f"{r} {lc}"] = [expand(t, lc), [lc]]
                        else:
                            target.setdefault(f"{r} {lc}", [None, []])
                        vs = {k: x for k, x in variables(lc).items() if "{" + k + "}" in p["tgt"]}
                        find[expand(t, lc)] = [r, vs]
                if p["locales"] and (live or "*" not in p["ref"]):
                    every |= set(p["locales"])
        need(v["refs"] == sorted(refs), "wrong-paths", f"{when}: reference paths {v['refs']}, expected {sorted(refs)}")
        need(v["all"] == sorted(all_), "wrong-targets", f"{when}: all() gave {v['all']}, expected {sorted(all_)}")
        need(v["locales"] == sorted(every), "wrong-locales", f"{when}: all_locales {v['locales']}, expected {sorted(every)}")
        for k, x in target.items():
            need(v["target"].get(k) == x, "wrong-target", f"{when}: target of {k} is {v['target'].get(k)}, expected {x}")
        for k, x in find.items():
            need(v["find"].get(k) == x, "not-found-back", f"{when}: reference of {k} is {v['find'].get(k)}, expected {x}")
        for k, x in v["find"].items():
            if k.startswith("-") and k[1:] not in find:
                need(x is None, "found-wrongly", f"{when}: {k[1:]} is no target, but find_reference gave {x}")
        st.probe("mapped")

    # -- discovery ----------------------------------------------------------------
    def discover_view(self, sc, a):
        full = lambda p: p and normpath(join(a or "/sim", p))  # noqa: E731
        root = join("/sim", sc["root"])
        p = L10nDiscoverPaths(relpath(root, a) if a else root, ref_root=sc["ref_root"])
        out = {"ref_root": full(p.ref_root), "base": full(p.base), "refs": sorted(map(full, p.ref_paths)), "locales": p.locales, "sep": p.locale_dir_sep, "all": [], "target": {}, "find": {}}
        if p.base is None:
            p.base = relpath("/sim/nb", a) if a else "/sim/nb"
        out["newbase"] = full(p.base)
        out["all"] = sorted([full(r), full(t), l] for (r, t), l in p.all().items())
        for r in out["refs"]:
            rel = relpath(r, out["ref_root"])
            for lc in p.locales or ["fr", "pt-BR"]:
                x, _ = p.target(rel, locale=lc)
                out["target"][f"{r} {lc}"] = full(x)
                if not a and full(p.target(r, locale=lc)[0]) != full(x):
                    out["target"][f"{r} {lc}"] = "differs for the absolute path"
                if x is not None:
                    for s in {full(x), relpath(full(x), full(p.base))}:
                        f = p.find_reference(s)
                        out["find"].setdefault(f"{full(x)} {lc}", []).append(f and [full(f[0]), f[1]])
        out["none"] = [p.find_reference("fr/none/here.ftl"), p.find_reference("Nolocale/" + relpath(out["refs"][0], out["ref_root"]) if out["refs"] else "x"), p.target("none/here.ftl")[0]]
        return out

    def check_discover(self, sc, st, v, a):
        base = v["newbase"]
        dirs = {d for f in sc["files"] for d in [join("/sim", sc["root"], f)]}
        rels = {relpath(r, v["ref_root"]) for r in v["refs"]}
        po = lambda x: x[:-1] if x.endswith(".pot") else x  # noqa: E731
        need(v["all"] == sorted([join(v["ref_root"], x), join(base, "{locale}", po(x)), v["locales"]] for x in rels), "wrong-targets", f"all() gave {v['all']} for {sorted(rels)}")
        isdir = lambda p: any(d.startswith(p + "/") for d in dirs)  # noqa: E731
        for x in rels:
            r = join(v["ref_root"], x)
            src = r + "t" if x.endswith(".po") else r  # the template of a .po is used
            for lc in v["locales"] or ["fr", "pt-BR"]:
                alt = lc.replace("-", "_")
                ld = lc if "-" not in lc or isdir(join(base, lc)) else alt if v["sep"] == "_" or isdir(join(base, alt)) else lc
                want = join(base, ld, po(x)) if src in v["refs"] else None
                got = v["target"][f"{r} {lc}"]
                need(got == want, "wrong-target", f"target of {r} for {lc} is {got}, expected {want}")
                if want is not None:
                    first = r if not (x.endswith(".pot") and po(x) in rels) else join(v["ref_root"], po(x))
                    for f in v["find"][f"{want} {lc}"]:
                        need(f == [first, {"locale": lc}], "not-found-back", f"reference of {want} is {f}, expected {[first, lc]}")
        need(v["none"] == [None, None, None], "found-wrongly", f"{v['none']}")
        st.probe("discovered")
