"""moz-l10n fix: atomic replacement (F01), convergence (F02), honest reports (F03)."""
from __future__ import annotations

from .common import *  # noqa: F403
from .common import COM, TOK, World, diff, gen, hard_fired, mkworld, need, parse_resource, plan, cli, settle, serialize_resource, show, content, env_noise, entries_of, metas_of, plain, hexed
from sim import corpus
from sim.engine import Check, Stats

ROOT = "/sim/p"


def form_of(path, data: bytes):
    """The fixed form, or why there is none ("skip" or "fail")."""
    from moz.l10n.formats import UnsupportedFormat

    try:
        res = parse_resource(path, data)
        return "".join(serialize_resource(res)).encode("utf-8")
    except (UnsupportedFormat, UnicodeDecodeError):
        return "skip"
    except Exception:  # noqa: BLE001
        return "fail"


def comment_lines(res):
    """All the lines of comments, which may have been indented or moved."""
    cs = [res.comment]
    for s in res.sections:
        cs += [s.comment, *(e.comment for e in s.entries)]
    return sorted(x.strip() for c in cs for x in c.split("\n") if x.strip())


ENDS = [b"", b"\n\n\n", b" ", b"\n\t", b"\r", b"\x1a", b"\n\x1a", b"\0", b"\n\x0c\n", b"\\", b"\xc2\xa0"]


def gen_files(rng, mode):
    toks = gen.Toks()
    files = {}
    ref = ROOT + ("/en-US" if mode == "dir" and rng.random() < 0.4 else "")
    if mode == "config":
        ref = ROOT + "/" + rng.choice(["en", "src/en"])
    exts = [".ftl", ".json", ".properties", ".xml", ".ini", ".dtd", ".inc", ".po", ".xliff"]
    nf = rng.choice([1, 2, 3, 3, 4, 6])
    want = rng.sample(gen.FORMATS, min(nf, len(gen.FORMATS)))
    ext_glob = None
    explicit = None
    if mode == "glob":
        k = rng.random()
        if k < 0.4:
            ext_glob = rng.choice(exts)
        elif k < 0.8:
            explicit = []

    def selected(path):
        name = path.rsplit("/", 1)[1]
        hidden = any(p.startswith(".") for p in path[len(ROOT):].split("/"))
        if mode == "dir":
            return path.startswith(ref + "/") and not hidden and "/skipped/" not in path and not name.startswith("ignored-")
        if mode == "glob":
            if explicit is not None:
                return path in explicit
            return path.startswith(ROOT + "/") and not hidden and (name.endswith(ext_glob) if ext_glob else "." in name)
        return path.startswith(ref + "/") and not hidden and name.endswith(".ftl") if ext_cfg == ".ftl" else (
            path.startswith(ref + "/") and not hidden and name.endswith(ext_cfg))

    ext_cfg = rng.choice([".ftl", ".ftl", ".json", ".properties", ".xliff", ".po"])
    bydir = {ext_cfg: [f for f in gen.FORMATS if gen.EXT[f] == ext_cfg]}
    if ext_glob:
        bydir[ext_glob] = [f for f in gen.FORMATS if gen.EXT[f] == ext_glob]
    for i in range(nf):
        fmt = want[i % len(want)]
        if mode == "config" and rng.random() < 0.8:
            fmt = rng.choice(bydir[ext_cfg])
        elif ext_glob and rng.random() < 0.8:
            fmt = rng.choice(bydir[ext_glob])
        where = rng.choice([ref, ref, ref + "/sub", ref + "/sub/deep", ref + "/a b"])
        r = rng.random()
        name = f"f{i}{rng.choice(['', '-x', ' y', '.é'])}"
        if r < 0.12:
            where, name = rng.choice([(ref + "/.hid", name), (ref, "." + name), (ref + "/skipped", name), (ref, "ignored-" + name)])
        elif r < 0.18:
            where = "/sim/outside"
        path = f"{where}/{name}{gen.EXT[fmt]}"
        q = rng.random()
        if q < 0.16:
            b = gen.broken(rng, fmt)
            f = {**hexed(b), "st": gen.status(fmt, b)}
        elif q < 0.19 and fmt in gen.SURROGATE:
            f = {"text": gen.SURROGATE[fmt], "st": "fail"}
        elif q < 0.22:
            f = {"text": "", "st": "any"}
        elif q < 0.4:
            # anything that the format allows
            text, ok = corpus.fixable(rng, fmt)
            f = {"text": text, "st": "ok" if ok else "any", "any": fmt}
        else:
            f = {"spec": gen.gen_spec(rng, fmt, toks), "st": "ok"}
            if rng.random() < 0.35:
                f["pre"] = 1  # already in its fixed form
        if "spec" not in f and rng.random() < 0.08:
            # a byte order mark or other line ends, which only some formats allow
            b = content(f)
            f = {**hexed(b"\xef\xbb\xbf" + b if rng.random() < 0.5 else b.replace(b"\r\n", b"\n").replace(b"\n", b"\r\n")), "st": "any"}
        elif "spec" not in f and rng.random() < 0.1:
            # an unusual end
            f = {**hexed(content(f).rstrip(b"\n") + rng.choice(ENDS)), "st": "any"}
        if rng.random() < 0.08:
            f["mode"] = rng.choice([0o444, 0o755, 0o600])
        if explicit is not None and rng.random() < 0.7 and "outside" not in path:
            explicit.append(path)
        files[path] = f
    if rng.random() < 0.3:
        for n, b in rng.sample(sorted(gen.UNSUPPORTED.items()), 2):
            p = f"{ref}/{n}"
            files[p] = {**hexed(b), "st": "skip"}
            if explicit is not None:
                explicit.append(p)
    if rng.random() < 0.1:
        # a symbolic link to a file stored elsewhere
        fmt = rng.choice(bydir.get(ext_glob or ext_cfg) or ["fluent"])
        files["/sim/store/real.bin"] = {"spec": gen.gen_spec(rng, fmt, toks), "st": "ok", "via": f"{ref}/ln{gen.EXT[fmt]}"}
        files[f"{ref}/ln{gen.EXT[fmt]}"] = {"link": "/sim/store/real.bin"}
        if explicit is not None:
            explicit.append(f"{ref}/ln{gen.EXT[fmt]}")
    for p, f in files.items():
        if "link" not in f:
            f["sel"] = selected(f.get("via", p))
    if mode == "dir":
        keep = {"spec": gen.gen_spec(rng, "fluent", toks, 2), "st": "ok", "sel": True, "keep": 1}
        files[f"{ref}/zz-keep.ftl"] = keep
        if rng.random() < 0.5 or any("skipped" in p or "ignored-" in p for p in files):
            files[f"{ref}/.l10n-ignore"] = {"text": "# ignored\n/skipped/\nignored-*\n!zz-keep.ftl\n", "st": "any", "sel": False}
        args = [ROOT]
    elif mode == "glob":
        if explicit is not None:
            rng.shuffle(explicit)
            args = [p.replace("[", "[[]") for p in explicit] or [f"{ref}/none.ftl"]
            if len(args) == 1 and rng.random() < 0.5:
                args.append(f"{ref}/nothing-here.ftl")
        else:
            args = [f"{ROOT}/**/*{ext_glob}" if ext_glob else f"{ROOT}/**/*.*"]
        if rng.random() < 0.2 and explicit is not None and len(explicit) > 0:
            args.append(args[0])
    else:
        inc = rng.random() < 0.3
        toml = f'basepath = "."\nlocales = ["fr"]\n'
        rel = ref[len(ROOT) + 1:]
        if inc:
            toml += '[[includes]]\npath = "inc.toml"\n'
            files[ROOT + "/inc.toml"] = {"text": f'[[paths]]\nreference = "{rel}/**/*{ext_cfg}"\nl10n = "{{locale}}/**/*{ext_cfg}"\n', "st": "any", "sel": False, "keep": 1}
        else:
            toml += f'[[paths]]\nreference = "{rel}/**/*{ext_cfg}"\nl10n = "{{locale}}/**/*{ext_cfg}"\n'
        files[ROOT + "/l10n.toml"] = {"text": toml, "st": "any", "sel": False, "keep": 1}
        args = ["--config", ROOT + "/l10n.toml"]
    # unrelated bystanders
    files["/sim/other/by.ftl"] = {"text": "by   =  stander\n", "st": "any", "sel": False}
    files[ROOT + "/.git/x.ftl"] = {"text": "git   =  stander\n", "st": "any", "sel": False}
    return files, args


class _Fix(Check):
    quick_seeds = 2500
    variants = 7
    rule = ("A tree of 1-9 generated localization files in 10 formats (fixed already or not, broken, empty, unsupported, ignored, hidden, read-only, linked) "
            "is fixed by directory, glob or config, with 0-2 disturbed runs before an undisturbed one; faults are drawn from the system calls of the undisturbed run. "
            "Non-trivial: at least one fault fired.")

    def scenarios(self, rng, tier):
        mode = rng.choice(["dir", "glob", "config"])
        files, args = gen_files(rng, mode)
        cont = rng.random() < 0.6
        if cont:
            args = ["--continue", *args] if rng.random() < 0.5 else [*args, "--continue"]
        base = {"files": files, "args": args, "cont": cont, "runs": 1, "faults": []}
        env_noise(rng, base)
        settle(rng, base)
        yield base
        log = [e for e in self.trace(base) if e[0] == 0]
        pred = self.pred(log, mode)
        n = self.variants if tier == "quick" else 40
        for _ in range(n):
            sc = dict(base)
            env_noise(rng, sc)
            sc["runs"] = rng.choice([1, 1, 2])
            if sc["runs"] == 2:
                f2 = plan(rng, log, pred=pred)
                for f in f2:
                    f["op"] = 1
                sc["faults"] = plan(rng, log, pred=pred) + f2
            else:
                sc["faults"] = plan(rng, log, pred=pred)
            if rng.random() < 0.12:
                sc["free"] = rng.choice([0, 1, 10, 40, 100, 300])
            if self.prop == "F03" and rng.random() < 0.15:
                evs = [e[2] for e in log if e[1] == "open" and files.get(e[2], {}).get("sel") and "via" not in files[e[2]]]
                if evs:
                    p = rng.choice(evs)
                    sc["runs"] = 1
                    sc["faults"] = [*sc["faults"], {"op": 0, "kind": "open", "path": p, "nth": 0, "action": "env", "do": {"do": "remove", "path": p}}]
            yield sc

    def pred(self, log, mode):
        # glob(), os.walk() and os.path.isfile() of the standard library take a directory which
        # cannot be listed as empty, which changes what is selected: no faults there
        if self.prop == "F01":
            return None
        opened, ok = set(), set()
        for e in log:
            if e[1] == "open":
                opened.add(e[2])
            if e[1] not in ("scandir", "stat", "lstat") or mode != "glob" and e[2] in opened:
                ok.add(e[:4])
        return lambda e: e[:4] in ok

    # -- one run ---------------------------------------------------------------
    def run(self, sc, st):
        files = {p: dict(f) for p, f in sc["files"].items()}
        for p, f in files.items():
            if f.get("pre") and "spec" in f:
                b = form_of(f.get("via", p), content(f))
                if isinstance(b, bytes):
                    f.pop("spec")
                    f.update(hexed(b))
        w = mkworld(sc, files)
        real = {p: content(f) for p, f in files.items() if "link" not in f}
        form = {}
        for p, f in files.items():
            if "link" in f:
                continue
            form[p] = form_of(f.get("via", p), real[p])
            if f["st"] == "ok":
                need(isinstance(form[p], bytes), "valid-file-refused", f"{p}: {show(real[p])} is valid but cannot be parsed and serialized")
            elif f["st"] in ("skip", "fail") and self.prop == "F03":
                need(not isinstance(form[p], bytes), "broken-file-accepted", f"{p}: {show(real[p])} was parsed without an error")
        try:
            self.body(sc, st, files, w, real, form)
        finally:
            st.world(w)

    def body(self, sc, st, files, w, real, form):
        selected = [p for p, f in files.items() if f.get("sel")]
        state = {"cur": dict(real), "changes": []}
        allowed = {p: {real[p]} | ({form[p]} if isinstance(form[p], bytes) and files[p].get("sel") else set()) for p in real}

        def watch(world, path):
            world.quiet += 1
            try:
                for p in real:
                    got = world.read(p)
                    if got == state["cur"][p]:
                        continue
                    state["changes"].append((world.op, len(world.log), p))
                    prev = state["cur"][p]
                    state["cur"][p] = got
                    if self.prop == "F01":
                        if got is None:
                            state.setdefault("bad", ("file-vanished", f"{p} does not exist for an instant (after {world.log[-1][:4]})"))
                        elif got not in allowed[p] or got == real[p] and prev != real[p]:
                            state.setdefault("bad", ("torn-file", f"{p} holds {show(got)} for an instant (after {world.log[-1][:4]}); before {show(real[p])}, fixed {show(form[p]) if isinstance(form[p], bytes) else form[p]}"))
            finally:
                world.quiet -= 1

        w.watch = watch
        before = w.snapshot()
        if "free" in sc:
            w.capacity = w.used() + sc["free"]
        outs = []
        crashed_names = set()
        w.faults = sc["faults"]
        nruns = sc["runs"]
        for op in range(nruns + 1 if self.prop == "F02" else nruns):
            w.op = op
            if op == nruns:
                w.faults, w.capacity = [], None
            pre = w.snapshot()
            modes = {p: w.mode(p) for p in real if p in pre}
            fired0 = len(w.fired_faults)
            full0 = w.full_hits
            log0 = len(w.log)
            o = cli(w, sc, ["fix", *sc["args"]])
            st.out(o)
            outs.append(o)
            post = w.snapshot()
            if "bad" in state:
                need(False, *state["bad"])
            hard = [sc["faults"][i] for i in w.fired_faults[fired0:] if i in hard_fired(w)]
            full = w.full_hits > full0
            extra = set(post) - set(before) - crashed_names
            if o.crashed:
                crashed_names |= extra
            elif self.prop == "F01" and not any(f["kind"] == "unlink" for f in hard):
                need(not extra, "leftover-file", f"exit {o.exit} left {sorted(extra)}")
            if self.prop == "F01":
                d = diff({k: v for k, v in pre.items() if not isinstance(v, bytes)}, {k: v for k, v in post.items() if not isinstance(v, bytes)})
                need(d is None, "tree-changed", d)
            if self.prop == "F03":
                self.f03(sc, st, files, selected, form, w, o, pre, post, hard, full, log0, state, op, modes)
        if self.prop == "F02":
            self.f02(sc, st, files, form, real, w, crashed_names)

    def f02(self, sc, st, files, form, real, w, leftovers):
        after = {k: v for k, v in w.snapshot().items() if k not in leftovers}
        ref = mkworld(sc, {p: ({**hexed(real[p]), **({"mode": f["mode"]} if "mode" in f else {})} if p in real else f) for p, f in files.items()})
        o = cli(ref, sc, ["fix", *sc["args"]])
        want = ref.snapshot()
        d = diff(after, want)
        need(d is None, "not-converged", f"after {sc['runs']} disturbed runs and one undisturbed: {d}")
        for k in leftovers:
            need(k.rsplit("/", 1)[1].startswith("."), "visible-leftover", f"{k} would be picked up as a localization file")
        w.op = 99
        o2 = cli(w, sc, ["fix", *sc["args"]])
        need(o2.exit == o.exit, "exit-not-stable", f"exit {o.exit} first, {o2.exit} after everything was fixed")
        d = diff({k: v for k, v in w.snapshot().items() if k not in leftovers}, want)
        need(d is None, "not-stable", f"one more run: {d}")
        stopped = o.exit != 0
        for p in real:
            if not isinstance(form[p], bytes):
                need(want[p] == real[p], "broken-file-changed", f"{p} cannot be parsed or serialized, but {show(real[p])} became {show(want[p])}")
        for p, f in files.items():
            if not f.get("sel") or f["st"] != "ok":
                continue
            now = want[p]
            path = f.get("via", p)
            if not stopped or sc["cont"] and f.get("mode") != 0o444:
                need(now == form[p], "not-fixed", f"{p}: {show(now)} is not the fixed form {show(form[p])}")
            if now == real[p]:
                continue
            st.probe("files_fixed")
            was, res = parse_resource(path, real[p]), parse_resource(path, now)
            a, b = entries_of(was), entries_of(res)
            need([x[0] for x in a] == [x[0] for x in b], "messages-changed", f"{p}: ids {[x[0] for x in a]} became {[x[0] for x in b]}")
            as_is = plain if path.endswith(".ftl") else lambda m: m  # noqa: E731
            for x, y in zip(a, b):
                need(
                    as_is(x[1]) == as_is(y[1]) and {k: as_is(v) for k, v in x[2].items()} == {k: as_is(v) for k, v in y[2].items()},
                    "message-changed",
                    f"{p}: {x} became {y}",
                )
            # Android resources may lose the declaration of an unused XML namespace
            for x, y in zip(metas_of(was, was.format != Format.android), metas_of(res, was.format != Format.android)):
                need(x == y, "metadata-changed", f"{p}: {x} became {y}")
            a, b = comment_lines(was), comment_lines(res)
            need(a == b, "comments-changed", f"{p}: comments {a} became {b}")
            s, t = real[p].decode(), now.decode()
            if "any" in f:
                gone = corpus.lost(f["any"], s, t)
                need(not gone, "words-lost", f"{p}: {gone} of {show(real[p])} are not in {show(now)}")
            spec = sc["files"][p].get("spec")
            attrs = {v for e in (spec or {}).get("entries", ()) for v in (e.get("attrs") or {}).values()}
            vs, vt = TOK.findall(s), TOK.findall(t)
            need([v for v in vs if v not in attrs] == [v for v in vt if v not in attrs] and sorted(vs) == sorted(vt), "messages-changed", f"{p}: texts {vs} became {vt}")
            need(sorted(COM.findall(s)) == sorted(COM.findall(t)), "comments-changed", f"{p}: {show(real[p])} became {show(now)}")

    def f03(self, sc, st, files, selected, form, w, o, pre, post, hard, full, log0, state, op, modes):
        # only selected files change, ever
        for p in set(pre) | set(post):
            if p not in files:
                continue
            if not files[p].get("sel"):
                need(pre.get(p) == post.get(p), "unselected-file-changed", f"{p} was not selected: {show(pre.get(p))} became {show(post.get(p))}")
        hits = [sc["faults"][i] for i in w.fired_faults if sc["faults"][i]["action"] == "env"]
        hard = hard + hits  # removed by someone else
        faulty = bool(hard) or full
        for p in selected:
            if p in modes and p in post:
                need(faulty or w.mode(p) == modes[p], "permissions-changed", f"{p}: {modes[p]:o} became {w.mode(p):o}")
        writable = lambda p: files[p].get("mode") != 0o444  # noqa: E731
        broken = [p for p in selected if form[p] == "fail" or form[p] != "skip" and not writable(p)]
        unfixed = [p for p in selected if isinstance(form[p], bytes) and post.get(p) != form[p]]
        unsure = [p for p in selected if not writable(p) and form[p] == "skip"]
        if o.exit == 0:
            need(not unfixed, "silent-failure", f"exit 0 but not fixed: {unfixed[:3]}")
            need(not broken, "silent-failure", f"exit 0 but broken or read-only: {broken[:3]}")
            st.probe("clean-exit")
        elif not o.crashed:
            st.probe("failed-exit")
            need(broken or faulty or unsure, "false-failure", f"exit {o.exit} without a reason: {o.brief()}")
            if not faulty:
                need(o.exit == 1, "wrong-exit", f"exit {o.exit} for {broken[:3]}: {o.brief()}")
            interrupted = any(f["action"] == "interrupt" for f in hard)
            paths = {f.get("via", p) for p, f in files.items() if f.get("sel")} | {p for p, f in files.items() if f.get("sel")}
            perfile = all(f["kind"] in ("open", "read", "write", "close", "rename", "unlink", "chmod") and (
                f["path"] in paths or f["path"].endswith("<tmp>")) for f in hard)
            if sc["cont"] and perfile and not interrupted:
                st.probe("continued-after-failure")
                k = len(hard) + (99 if full else 0)
                rest = [p for p in unfixed if writable(p)]
                need(len(rest) <= k, "not-continued", f"--continue, but {len(rest)} files were left unfixed by {k} faults: {rest[:4]}")
                for p in rest:
                    d = p.rsplit("/", 1)[0]
                    need(full or any(f["path"] in (p, files[p].get("via")) or f["path"] == d + "/<tmp>" for f in hard), "not-continued",
                         f"--continue, but {p} was left unfixed though no fault concerned it")
            if not sc["cont"] and op == 0 and not interrupted:
                # the first selected file that failed, by the order in which they were opened
                opened = {}
                for i, ev in enumerate(w.log[log0:], log0):
                    if ev[1] == "open":
                        opened.setdefault(ev[2], i)
                bad = [p for p in selected if p in broken or p in unfixed]
                idx = [(opened[files[p].get("via", p)], p) for p in bad if files[p].get("via", p) in opened]
                if idx:
                    i, p = min(idx)
                    later = [c for c in state["changes"] if c[0] == op and c[1] > i and c[2] != p]
                    need(not later, "went-on-after-failure", f"{p} failed without --continue, but {sorted({c[2] for c in later})} changed afterwards")


class F01(_Fix):
    prop = "F01"


class F02(_Fix):
    prop = "F02"
    quick_seeds = 2500
    variants = 5


class F03(_Fix):
    prop = "F03"
