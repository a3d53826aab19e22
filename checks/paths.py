"""Finding files: discovery and listing order (P01), ignore files (P02), configurations (P03)."""
from __future__ import annotations

import re
from posixpath import basename, dirname, join, normpath, relpath

from sim.engine import Check
from sim.faults import plan

from .common import hard_fired, mkworld, need, run_callable, run_cli

from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
from moz.l10n.paths.discover import MissingSourceDirectoryError
from moz.l10n.util import walk_files

ROOT = "/sim/p"
L10N_EXT = (".ftl", ".properties", ".po", ".pot", ".dtd", ".json", ".ini", ".xliff")
LOCALE = re.compile(r"[a-z]{2,3}(?:[-_][A-Z][a-z]{3})?(?:[-_][A-Z]{2})?")
ORDERS = [0, 1, 2, 3, 4, 5, 6, 7, "sorted", "reversed"]


def hidden(rel):
    return any(x.startswith(".") for x in rel.split("/"))


def text_for(path):
    ext = path.rsplit(".", 1)[-1]
    return {"ftl": "a = b\n", "properties": "a = b\n", "po": 'msgid "a"\nmsgstr "b"\n', "pot": 'msgid "a"\nmsgstr ""\n', "dtd": '<!ENTITY a "b">\n',
            "json": '{"a": "b"}\n', "ini": "[Strings]\na=b\n"}.get(ext, "x\n")


# -- P01 ------------------------------------------------------------------------------


def gen_tree(rng):
    """Files of a tree with several candidates for everything."""
    files = set()
    dirs = [""]
    for _ in range(rng.choice([1, 2, 3, 4])):
        dirs.append(join(rng.choice(dirs), rng.choice(["browser", "toolkit", "l10n", "src", "app", "a b", "locales", ".hid"])))
    refs = rng.choice([["en-US"], ["en"], ["en-US", "en"], ["en_us", "en-US"], ["en", "en-us"], ["en-US"], []])
    for _ in range(rng.choice([1, 1, 2, 3])):
        for r in refs:
            d = join(rng.choice(dirs), r)
            if rng.random() < 0.3:
                d = join(d, rng.choice(["sub", "fr", "browser"]))
            for _ in range(rng.choice([0, 1, 1, 2])):
                files.add(join(d, rng.choice(["a", "b", "c.d"]) + rng.choice([".ftl", ".ftl", ".properties", ".pot", ".txt", ".po"])))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        base = rng.choice(dirs)
        for lc in rng.sample(["fr", "de", "pt-BR", "zh-Hans", "nb_NO", "zh_Hant_TW", "sr-Cyrl-RS", "ast", "xx"], rng.choice([1, 1, 2, 3])):
            files.add(join(base, lc, rng.choice(["a.ftl", "sub/b.ftl", "c.properties", "note.txt", "fr/a.ftl"])))
    for _ in range(rng.choice([0, 1, 2])):
        files.add(join(rng.choice(dirs), rng.choice(["top.ftl", "README.md", ".hidden.ftl", "z.properties"])))
    files.add("README")
    return sorted(files)


def model(files, ref_root, source_locale):
    """The reference and base directories that the documentation allows."""
    dirs = {""}
    for f in files:
        d = dirname(f)
        while d:
            dirs.add(d)
            d = dirname(d)
    vis = {d for d in dirs if not hidden(d) or d == ""}

    def inside(a, b):
        return b == "" or a == b or a.startswith(b + "/")

    scores = {}
    for i, lc in enumerate(source_locale):
        for v in (lc, lc.lower(), lc.replace("-", "_"), lc.replace("-", "_").lower()):
            scores[v] = i
    cand = {d: scores[basename(d)] for d in vis if d and basename(d) in scores}
    if ref_root is not None:
        cand.setdefault(ref_root, len(source_locale))
        cand = {d: s for d, s in cand.items() if inside(d, ref_root)}
    loc, pot = set(), set()
    for f in files:
        n, d = basename(f), dirname(f)
        if d in vis and not n.startswith(".") and n.endswith(L10N_EXT) and not (n.count(".") == 1 and n.startswith(".")):
            loc.add(d)
            if n.endswith(".pot"):
                pot.add(d)
    ok = [d for d in cand if any(inside(p, d) for p in pot)] or [d for d in cand if any(inside(p, d) for p in loc)]
    if not ok:
        return None, None

    def depth(d):
        return 0 if d == "" else d.count("/") + 1

    best = min((cand[d], depth(d)) for d in ok)
    refs = {d for d in ok if (cand[d], depth(d)) == best}

    def bases(ref):
        bd = {}
        for d in vis:
            lcs = [basename(x) for x in vis if x and dirname(x) == d and basename(x) not in scores and LOCALE.fullmatch(basename(x))]
            if lcs and not inside(d, ref):
                bd[d] = lcs
        with_files = {d for d in bd if any(p != d and inside(p, d) for p in loc)}
        bd = {d: v for d, v in bd.items() if d in with_files} or bd
        if not bd:
            return {}
        b = min((-len(v), depth(d)) for d, v in bd.items())
        return {d: v for d, v in bd.items() if (-len(v), depth(d)) == b}

    return refs, bases


class P01(Check):
    prop = "P01"
    quick_seeds = 12000
    rule = ("A generated tree with several candidate reference directories, localization bases, .pot templates and hidden directories (or a config with wildcards) is discovered under 4-6 directory listing orders, with drawn arguments; "
            "all results must be identical and match a model of the documented choice. Non-trivial: the orders led to different sequences of directory entries.")

    def scenarios(self, rng, tier):
        for _ in range(4 if tier == "quick" else 12):
            orders = rng.sample(ORDERS, rng.choice([4, 6]))
            if rng.random() < 0.65:
                sc = {"kind": "discover", "files": gen_tree(rng)}
                sc["ref_root"] = rng.choice([None, None, None, ".", "src", "browser", "l10n"])
                sc["source"] = rng.choice([None, None, ["en-US"], ["en", "en-US"], ["fr"]])
            else:
                sc = self.config(rng)
            sc["orders"] = orders
            yield sc

    def config(self, rng):
        files = set()
        for _ in range(rng.choice([2, 4, 8])):
            files.add(join(rng.choice(["src", "src/en", "src/en/b", "src/a/en", "src/b/en", "other"]), rng.choice(["a", "b", "x y", "c.d", ".h"]) + rng.choice([".ftl", ".ftl", ".properties"])))
        pats = rng.sample([("src/**/*.ftl", "{locale}/**/*.ftl"), ("src/*/en/*.ftl", "{locale}/*/*.ftl"), ("src/en/**", "{locale}/**"), ("src/en/*.ftl", "{l10n_base}/{locale}/*.ftl"),
                           ("other/*.properties", "{locale}/o/*.properties"), ("src/**/a.ftl", "x/{locale}/**/a.ftl")], rng.choice([1, 2, 3]))
        return {"kind": "config", "files": sorted(files), "paths": [list(p) for p in pats], "inc": rng.random() < 0.4, "keep": 1}

    def run(self, sc, st):
        outs, seqs = [], []
        for o in sc["orders"]:
            tree = {join(ROOT, f): {"text": text_for(f)} for f in sc["files"]}
            if sc["kind"] == "config":
                ents = [f'[[paths]]\nreference = "{r}"\nl10n = "{t}"\n' for r, t in sc["paths"]]
                half = len(ents) // 2 if sc["inc"] else len(ents)
                tree[ROOT + "/l10n.toml"] = {"text": 'locales = ["fr", "de"]\n' + "".join(ents[:half]) + ('[[includes]]\npath = "inc.toml"\n' if sc["inc"] else "")}
                if sc["inc"]:
                    tree[ROOT + "/inc.toml"] = {"text": 'locales = ["zz"]\n' + "".join(ents[half:])}
            w = mkworld({"list_seed": o}, tree)
            try:
                w.cwd = "/sim"
                r = run_callable(w, lambda: self.discover(sc) if sc["kind"] == "discover" else self.load(sc))
                st.out(r)
                outs.append((r.exit, r.exc_type, r.value))
                seqs.append([e for e in w.log if e[1] in ("scandir", "listdir", "stat")])
            finally:
                st.world(w)
        if any(s != seqs[0] for s in seqs):
            st.nontrivial = True
            st.fired["listing-order"] += len(sc["orders"])
        for o, x in zip(sc["orders"], outs):
            need(x == outs[0], "order-dependent", f"{sc['kind']} with listing order {sc['orders'][0]}: {outs[0]}; with {o}: {x}")
        self.model(sc, outs[0], st)

    def discover(self, sc):
        kw = {"source_locale": sc["source"]} if sc["source"] is not None else {}
        p = L10nDiscoverPaths(ROOT, ref_root=sc["ref_root"], **kw)
        out = {"ref_root": p.ref_root, "base": p.base, "locales": p.locales, "sep": p.locale_dir_sep, "refs": list(p.ref_paths), "all_locales": sorted(p.all_locales)}
        if p.base is not None:
            out["all"] = [[*k, v] for k, v in p.all().items()]
            out["targets"] = [[list(map(str, p.target(r)[:1])), [p.target(r, locale=lc)[0] for lc in p.locales or ()]] for r in p.ref_paths]
            out["found"] = [p.find_reference(t[0]) for _, ts in out["targets"] for t in ts if t]
        return out

    def load(self, sc):
        p = L10nConfigPaths(ROOT + "/l10n.toml")
        refs = list(p.ref_paths)
        return {"refs": refs, "all": [[*k, v] for k, v in p.all().items()], "targets": [[p.target(r)[0], sorted(p.target(r)[1])] for r in refs], "locales": sorted(p.all_locales)}

    def model(self, sc, out, st):
        exit, exc, v = out
        if sc["kind"] == "config":
            need(exit == 0, "config-refused", f"{exc}")
            want = set()
            for ref, _ in sc["paths"]:
                rx = re.compile("".join("(?:[^./][^/]*/)*" if x == "**/" else "(?:[^./][^/]*/)*[^./][^/]*" if x == "**" else "[^/]*" if x == "*" else re.escape(x)
                                        for x in re.split(r"(\*\*/|\*\*|\*)", ref)))
                want |= {join(ROOT, f) for f in sc["files"] if rx.fullmatch(f) and not hidden(f)}
            need(set(v["refs"]) == want, "wrong-paths", f"config {sc['paths']} gave {v['refs']}, expected {sorted(want)}")
            st.probe("config")
            return
        rr = sc["ref_root"]
        rr = None if rr is None else "" if rr == "." else rr
        refs, bases = model(sc["files"], rr, ["en-US", "en"] if sc["source"] is None else sc["source"])
        if refs is None:
            st.probe("no-source")
            need(exit == 1 and exc == MissingSourceDirectoryError.__name__, "no-source-found", f"there is no reference directory, but {out}")
            return
        need(exit == 0, "discovery-failed", f"{exc}, expected one of {sorted(refs)}")
        rel = v["ref_root"][len(ROOT) + 1:]
        need(rel in refs, "wrong-reference", f"reference {v['ref_root']}, but the best are {sorted(refs)} of {sc['files']}")
        st.probe("ties:ref" if len(refs) > 1 else "unique:ref")
        bd = bases(rel)
        if not bd:
            need(v["base"] is None, "wrong-base", f"base {v['base']}, but there is none")
        else:
            need(v["base"] is not None and v["base"][len(ROOT) + 1:] in bd, "wrong-base", f"base {v['base']}, but the best are {sorted(bd)} of {sc['files']}")
            lcs = bd[v["base"][len(ROOT) + 1:]]
            need(sorted(x.replace("_", "-") for x in lcs) == v["locales"], "wrong-locales", f"locales {v['locales']}, expected {sorted(lcs)}")
            st.probe("ties:base" if len(bd) > 1 else "unique:base")
        want = sorted(join(ROOT, f) for f in sc["files"] if (rel == "" or f.startswith(rel + "/")) and not hidden(f[len(rel):].lstrip("/")))
        need(sorted(v["refs"]) == want, "wrong-refs", f"reference paths {v['refs']}, expected {want}")


# -- P02 ----------------------------------------------------------------------------------


def rule_regex(pat):
    """(regex over the path below the root, directories only): git's documented rules."""
    dironly = pat.endswith("/")
    if dironly:
        pat = pat[:-1]
    anchored = "/" in pat
    pat = pat.lstrip("/") if pat.startswith("/") else pat
    out, i = "", 0
    while i < len(pat):
        if pat.startswith("**/", i):
            out += "(?:.*/)?"
            i += 3
        elif pat.startswith("/**", i) and i + 3 == len(pat):
            out += "/.+"
            i += 3
        elif pat[i] == "*":
            out += "[^/]*"
            i += 1
        elif pat[i] == "?":
            out += "[^/]"
            i += 1
        elif pat[i] == "[":
            j = pat.index("]", i)
            out += pat[i : j + 1]
            i = j + 1
        else:
            out += re.escape(pat[i])
            i += 1
    return re.compile(out if anchored else "(?:.*/)?" + out), dironly


def ignored(rules, rel, leaf_dir=False, start=1):
    """Is the file (or directory) `rel` excluded, itself or by one of its directories?"""
    parts = rel.split("/")
    for n in range(start, len(parts) + 1):
        p = "/".join(parts[:n])
        is_dir = leaf_dir or n < len(parts)
        hit = parts[n - 1].startswith(".")
        for r in rules:
            if not r or r.startswith("#"):
                continue
            neg = r.startswith("!")
            rx, dironly = rule_regex(r[1:] if neg else r)
            if dironly and not is_dir:
                continue
            if rx.fullmatch(p):
                hit = not neg
        if hit:
            return True
    return False


class P02(Check):
    prop = "P02"
    quick_seeds = 12000
    rule = ("A generated tree and ignore file (13 rule forms, negations, comments) is walked by walk_files, discovery, lint or fix, with short and failing reads of the ignore file, directories that cannot be listed, out-of-memory, or an ignore file that is not UTF-8; "
            "the result must be exactly the files which an independent matcher selects, or the call must fail and change nothing. Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        files = set()
        for _ in range(rng.choice([3, 6, 12])):
            d = "/".join(rng.choice(["a", "b", "skip", "a b", "é", ".h"]) for _ in range(rng.choice([0, 1, 1, 2, 3])))
            files.add(join(d, rng.choice(["x", "y", "keep", "skip", ".dot", "n.m"]) + rng.choice([".ftl", ".ftl", ".properties", ".txt", ""])))
        files = {f for f in files if not any(g.startswith(f + "/") for g in files)}
        pats = ["skip", "skip/", "*.ftl", "/a", "/a/", "/a/b", "/a/*", "**/skip", "/a/**", "/a/**/x.ftl", "[ab]", "x.ft[kl]", "/skip/", "n.m.*", "/a?b/", "x*", "?.ftl", "/x.ftl", "y.properties", "b/", "é/", "a b/", "keep.ftl", "/b/*.ftl"]
        rules = rng.sample(pats, rng.choice([0, 1, 2, 3, 5]))
        for i in range(len(rules)):
            if rng.random() < 0.15:
                rules.insert(i, rng.choice(["", "# comment", "#x.ftl"]))
            elif rng.random() < 0.15:
                rules[i] = "!" + rules[i]
        how = rng.choice(["walk", "walk", "dirs", "discover", "lint", "fix"])
        base = {"files": sorted(files | {"zz.ftl"}), "rules": rules, "how": how, "faults": [], "own": how in ("walk", "dirs") and rng.random() < 0.3, "none": rng.random() < 0.08,
                "utf8": rng.random() > 0.06, "nl": rng.choice(["\n", "\n", "\r\n"]) if rng.random() < 0.2 else "\n", "keep": 1, "list_seed": rng.choice(ORDERS),
                "encoding": rng.choice(["utf-8", "utf-8", "cp1252", "ascii"])}
        if how == "dirs":
            base["dirs"] = rng.sample(["a", "b", "nowhere", "a b"], rng.choice([1, 2]))
        yield base
        log = self.trace(base)
        ign = self.ignore_path(base)
        for _ in range(6 if tier == "quick" else 25):
            sc = dict(base)
            sc["list_seed"] = rng.choice(ORDERS)
            sc["bufsize"] = rng.choice([8192, 1, 7, 64])
            r = rng.random()
            if r < 0.65:
                sc["faults"] = plan(rng, log, allow=("errno", "benign", "nomem"), pred=lambda e: e[2] == ign and e[1] in ("open", "read"))
            else:
                evs = [e for e in log if e[1] == "scandir"]
                if evs:
                    e = rng.choice(evs)
                    sc["faults"] = [{"op": 0, "kind": "scandir", "path": e[2], "nth": 0, "sticky": 1, "action": "errno", "errno": rng.choice(["EACCES", "EIO", "ENOMEM", "EMFILE"])}]
            yield sc

    def ignore_path(self, sc):
        return "/sim/ig/custom" if sc["own"] else ROOT + "/.l10n-ignore"

    def run(self, sc, st):
        tree = {join(ROOT, f): {"text": "a   =  b\n" if f.endswith(".ftl") else "x\n"} for f in sc["files"]}
        if not sc["none"]:
            t = sc["nl"].join(sc["rules"]) + sc["nl"]
            tree[self.ignore_path(sc)] = {"text": t} if sc["utf8"] else {"hex": (t.encode() + b"\xff\xfe").hex()}
        w = mkworld(sc, tree)
        w.cwd = "/sim"
        w.faults = sc["faults"]
        try:
            self.body(sc, st, w)
        finally:
            st.world(w)

    def body(self, sc, st, w):
        how = sc["how"]
        kw = {"ignorepath": self.ignore_path(sc)} if sc["own"] else {}
        if how in ("walk", "dirs"):
            o = run_callable(w, lambda: list(walk_files(ROOT, sc.get("dirs"), **kw)))
        elif how == "discover":
            o = run_callable(w, lambda: list(L10nDiscoverPaths(ROOT, ref_root=".").ref_paths))
        else:
            before = w.snapshot()
            o = run_cli(w, [how, *(["--continue"] if how == "fix" else ["--skip-unknown"]), ROOT], cwd="/sim")
        st.out(o)
        rules = [] if sc["none"] else sc["rules"]
        want = [f for f in sc["files"] if not ignored(rules, f)]
        if how == "dirs" and sc.get("dirs"):
            # a directory that is asked for by name is looked in
            want = [f for d in sc["dirs"] for f in sorted(sc["files"]) if f.startswith(d + "/") and not ignored(rules, f, start=2)]
        hard = [w.faults[i] for i in hard_fired(w)]
        bad = not sc["utf8"] and not sc["none"]
        listing = [f for f in hard if f["kind"] == "scandir"]
        if listing:
            # discovery itself looks everywhere, but takes what it cannot list as empty
            d = listing[0]["path"][len(ROOT) + 1:]
            needed = d == "" or not ignored(rules, d, True) if how in ("discover", "lint", "fix") else True
            st.probe("unlistable" if needed else "unlistable-ignored")
            bad = bad or needed
            if not needed:
                hard = []
        if bad or hard:
            st.probe("must-fail")
            need(o.exit != 0, "unreadable-ignored", f"{how}: {hard or 'the ignore file is not UTF-8'}, but it succeeded with {o.value or o.brief()}")
            if how == "fix":
                need(w.snapshot() == before, "touched-before-failure", f"fix failed with {o.exc}, but changed files")
            return
        if how in ("walk", "dirs", "discover"):
            if how == "discover" and o.exc_type == "MissingSourceDirectoryError":
                return
            need(o.exit == 0, "walk-failed", f"{o.exc}")
            got = [p[len(ROOT) + 1:] for p in o.value]
            need(sorted(got) == sorted(want), "wrong-files", f"rules {rules}: walked {sorted(got)}, expected {sorted(want)}; missing {sorted(set(want) - set(got))}, extra {sorted(set(got) - set(want))}")
            st.probe("walked")
            return
        got = {e[2][len(ROOT) + 1:] for e in w.log if e[1] == "open" and e[2].startswith(ROOT + "/") and not e[2].endswith("/<tmp>")} - {".l10n-ignore"}
        if o.exit != 0 and not any(f.endswith((".ftl", ".properties")) for f in sc["files"] if not hidden(f)):
            return  # nothing localizable
        must = {f for f in want if f.endswith((".ftl", ".properties"))}
        need(must <= got <= set(want), "wrong-files", f"{how} with rules {rules} opened {sorted(got)}, expected {sorted(want)}")
        st.probe(how)


# -- P03 ------------------------------------------------------------------------------------


class P03(Check):
    prop = "P03"
    quick_seeds = 12000
    rule = ("A graph of 1-6 config files (trees, diamonds, cycles, self-includes, repeated and differently spelled includes, env variables) is loaded directly or by lint, fix, build or compare, with failing and short reads, out-of-memory, and configs removed, torn or broken just before they are opened; "
            "the paths must be exactly those of the whole graph with each config read once, or the command must fail and write nothing. Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        n = rng.choice([1, 2, 3, 4, 6])
        cfgs = []
        for i in range(n):
            d = "" if i == 0 else rng.choice(["", "", "sub", "sub/deep", "o"])
            cfgs.append({"path": join(d, "l10n.toml" if i == 0 else f"c{i}.toml"), "base": rng.choice([None, ".", "..", "src"]) if i else rng.choice([None, "."]),
                         "locales": rng.choice([None, ["fr"], ["fr", "de"]]), "incl": [], "paths": []})
        for i in range(1, n):  # everything is reachable
            cfgs[rng.randrange(i)]["incl"].append(i)
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            cfgs[rng.randrange(n)]["incl"].append(rng.randrange(n))
        k = 0
        for i, c in enumerate(cfgs):
            for _ in range(rng.choice([1, 1, 2])):
                c["paths"].append([f"f{k}.ftl", f"{{locale}}/f{k}.ftl", rng.choice([None, None, ["fr"], ["fr", "de"]])])
                k += 1
        for _ in range(rng.choice([0, 0, 0, 1, 2])):  # the same files, for other locales
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b and self.place({}, cfgs[a]) == self.place({}, cfgs[b]):
                ref, tgt, _ = rng.choice(cfgs[a]["paths"])
                if ref not in [x[0] for x in cfgs[b]["paths"]]:
                    cfgs[b]["paths"].append([ref, tgt, rng.choice([None, ["fr"], ["de"], ["de", "zz"]])])
        base = {"cfgs": cfgs, "how": rng.choice(["load", "load", "lint", "fix", "build", "compare"]), "faults": [], "env": rng.random() < 0.3, "spell": rng.randrange(3), "keep": 1, "at": None}
        if rng.random() < 0.35:
            base["at"] = rng.choice(["/sim", "/sim/p", "/sim/p", "/sim/l10n/fr", *(normpath(join(ROOT, dirname(c["path"]))) for c in cfgs)])
        yield base
        log = self.trace(base)
        mine = {join(ROOT, c["path"]) for c in cfgs}
        for _ in range(7 if tier == "quick" else 30):
            sc = dict(base)
            sc["bufsize"] = rng.choice([8192, 1, 7, 64])
            fs = plan(rng, log, allow=("errno", "benign", "nomem"), pred=lambda e: e[2] in mine and e[1] in ("open", "read"))
            if rng.random() < 0.4:
                q = rng.choice(sorted(mine))
                do = rng.choice([{"do": "remove", "path": q}, {"do": "dir", "path": q}, {"do": "replace", "path": q, "hex": b"[[paths]]\nreference = \"a".hex()},
                                 {"do": "replace", "path": q, "hex": b"\xff\xfe not toml".hex()}])
                fs = [f for f in fs if f["path"] != q] + [{"op": 0, "kind": "open", "path": q, "nth": 0, "action": "env", "do": do}]
            sc["faults"] = fs
            yield sc

    def reached(self, sc):
        todo, seen = [0], []
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.append(i)
                todo += sc["cfgs"][i]["incl"]
        return [sc["cfgs"][i] for i in sorted(seen)]

    def place(self, sc, c):
        """Directory that the paths of config `c` start from."""
        return normpath(join(ROOT, dirname(c["path"]), c["base"] or "."))

    def targets(self, sc, paths_only):
        """[[reference, target, locales]]: a file listed more than once is for all the locales listed."""
        return self.merged((join(self.place(sc, c), r), join(self.place(sc, c), t), lcs or (None if paths_only else c["locales"]))
                           for c in self.reached(sc) for r, t, lcs in c["paths"])

    def merged(self, rows):
        all = {}
        for r, t, lcs in rows:
            k = r, t
            all[k] = lcs if k not in all else sorted({*all[k], *lcs}) if lcs and all[k] else None
        return sorted(([*k, lcs] for k, lcs in all.items()), key=str)

    def toml(self, sc, c):
        s = ""
        if c["base"] is not None:
            s += f'basepath = "{c["base"]}"\n'
        if c["locales"]:
            s += f"locales = {c['locales']}\n".replace("'", '"')
        if sc["env"]:
            s += '[env]\nnm = "c"\n'
        here = self.place(sc, c)
        for ref, tgt, lcs in c["paths"]:
            s += f'[[paths]]\nreference = "{ref}"\nl10n = "{tgt}"\n'
            if lcs:
                s += f"locales = {lcs}\n".replace("'", '"')
        for x, j in enumerate(c["incl"]):
            p = relpath(join(ROOT, sc["cfgs"][j]["path"]), here)
            if (sc["spell"] + x) % 3 == 1:
                p = "./" + p
            elif (sc["spell"] + x) % 3 == 2:
                p = "zz/../" + p
            if sc["env"] and basename(p).startswith("c"):
                p = join(dirname(p), "{nm}" + basename(p)[1:])
            s += f'[[includes]]\npath = "{p}"\n'
        return s

    def run(self, sc, st):
        tree = {}
        for c in sc["cfgs"]:
            tree[join(ROOT, c["path"])] = {"text": self.toml(sc, c)}
            for ref, _, _ in c["paths"]:
                tree[join(self.place(sc, c), ref)] = {"text": "a   =  b\n"}
        tree["/sim/l10n/fr/x.txt"] = {"text": "x\n"}
        w = mkworld(sc, tree)
        w.faults = sc["faults"]
        try:
            self.body(sc, st, w, tree)
        finally:
            st.world(w)

    def body(self, sc, st, w, tree):
        how = sc["how"]
        cwd = normpath(sc["at"] or "/sim")
        sp = lambda p: relpath(p, cwd) if sc["at"] else p  # noqa: E731
        cfg = sp(ROOT + "/l10n.toml")
        before = w.snapshot()
        w.cwd = cwd

        def load():
            p = L10nConfigPaths(cfg)
            return {"configs": list(p.config_paths()), "refs": list(p.ref_paths), "all": [[*k, v] for k, v in p.all().items()], "locales": sorted(p.all_locales)}

        if how == "load":
            o = run_callable(w, load)
        else:
            args = {"lint": ["lint", "--config", cfg], "fix": ["fix", "--continue", "--config", cfg],
                    "build": ["build", "--config", cfg, "--base", sp("/sim/l10n"), "--target", sp("/sim/out"), "--locales", "fr,de"],
                    "compare": ["compare", "--json", "--source", cfg, sp("/sim/l10n/fr")]}[how]
            o = run_cli(w, args, cwd=cwd)
        st.out(o)
        hard = hard_fired(w)
        env = [i for i in w.fired_faults if w.faults[i]["action"] == "env"]
        if hard or env:
            what = [w.faults[i] for i in [*hard, *env]]
            need(o.exit != 0, "partial-config-accepted", f"{how}: {what}, but it succeeded: {o.value or o.brief()}")
            after = w.snapshot()
            gone = {w.faults[i]["path"] for i in env}
            d = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0) and p not in gone]
            need(not d, "written-despite-failure", f"{how} failed with {o.exc}, but changed {sorted(d)}")
            st.probe("must-fail")
            return
        need(o.exit == 0, "config-refused", f"{how}: {o.exc or o.brief()}")
        cfgs = self.reached(sc)
        abs_ = lambda p: normpath(join(cwd, p))  # noqa: E731
        opened = [e[2] for e in w.log if e[1] == "open"]
        for c in cfgs:
            p = join(ROOT, c["path"])
            need(opened.count(p) == 1, "config-not-read-once", f"{how}: {p} was opened {opened.count(p)} times; includes {[x['incl'] for x in cfgs]}")
        refs = sorted(join(self.place(sc, c), r) for c in cfgs for r, _, _ in c["paths"])
        if how == "load":
            v = o.value
            need(sorted(map(abs_, v["configs"])) == sorted(join(ROOT, c["path"]) for c in cfgs), "wrong-configs", f"configs {v['configs']}")
            need(sorted(map(abs_, v["refs"])) == refs, "wrong-paths", f"reference paths {v['refs']}, expected {refs}")
            want = self.targets(sc, False)
            got = self.merged((abs_(r), abs_(t), lcs) for r, t, lcs in v["all"])
            need(got == want, "wrong-targets", f"all() gave {got}, expected {want}")
            lw = sorted({x for c in cfgs for x in (c["locales"] or [])} | {x for c in cfgs for *_, l in c["paths"] for x in (l or [])})
            need(v["locales"] == lw, "wrong-locales", f"all_locales gave {v['locales']}, expected {lw}")
        elif how in ("lint", "compare"):
            need(set(refs) <= set(opened), "path-not-read", f"{how} did not read {sorted(set(refs) - set(opened))}")
        elif how == "fix":
            for r in refs:
                need(w.read(r) == b"a = b\n", "path-not-fixed", f"{r} was not fixed")
        else:
            for *_, t, lcs in self.targets(sc, True):
                for lc in ["fr", "de"]:
                    if not lcs or lc in lcs:
                        p = "/sim/out/{locale}" + t.split("{locale}")[1]
                        p = p.replace("{locale}", lc)
                        need(w.read(p) is not None, "path-not-built", f"{p} was not built")
        st.probe(how)
