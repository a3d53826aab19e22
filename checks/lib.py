"""The library: reading files (R01), threads (R02), histories (R03) and serializer streams (R04)."""
from __future__ import annotations

import json
import random

from sim import corpus, gen
from sim.engine import Check
from sim.faults import plan
from sim.libsim import DIRTY, EXC, FNS, STREAMS, Inject, Pool, Threads, call, corrupt, dump, fork_run, prepare, stream
from sim.vfs import HarnessError

from .common import content, hard_fired, hexed, is_benign, mkworld, need, run_callable

from moz.l10n.formats import Format
from moz.l10n.resource import parse_resource, serialize_resource

SER = ["mf2", "fluent", "android", "xliff", "properties", "plain_json", "webext", "gettext", "ini"]
OPS = ["parse"] * 5 + ["serialize"] * 5 + ["equal", "equal", "add", "add", "detect", "parse_message", "parse_message", "parse_message", "serialize_message",
       "serialize_message", "serialize_message", "to_json", "to_json", "from_json", "from_json", "mf2_to_json", "mf2_from_json", "validate", "entry_json", "entry_from_json", "astify",
       "fluent_entry", "fluent_parse_entry", "equals", "is_empty"] + ["fn"] * 10
PLURALS = [None, ["one", "other"], ["one", "few", "other"]]


def gen_pool(rng, theme=None):
    theme = theme or (rng.choice(corpus.FORMATS) if rng.random() < 0.4 else None)
    fmts = [theme] * rng.choice([1, 2]) if theme else rng.sample(corpus.FORMATS, rng.choice([1, 2, 3])) if rng.random() < 0.8 else [rng.choice(corpus.FORMATS)] * 2
    res = []
    for i, f in enumerate(fmts + ([fmts[0]] if rng.random() < 0.5 else [])):
        name = "xliff" if f in corpus.XCODE else f
        if f in gen.FORMATS and rng.random() < 0.2:
            text = gen.render(gen.gen_spec(rng, f, gen.Toks()))
        else:
            text = corpus.resource(rng, f)
        if rng.random() < 0.06:
            text = text[: rng.randrange(len(text) + 1)]
        res.append({"name": f"f{i}{corpus.EXT[f]}", "fmt": name, "text": text})
        if rng.random() < 0.3:
            res[-1]["dirty"] = [[rng.choice(DIRTY), rng.randrange(12)] for _ in range(rng.choice([1, 1, 2, 4]))]
    own = [m for m in corpus.MESSAGES if m[0] == theme]
    msgs = [list(m) for m in rng.sample(own or corpus.MESSAGES, min(len(own) or 9, rng.choice([1, 2, 4])))]
    msgs += [["@", rng.randrange(len(res)), rng.randrange(12)] for _ in range(rng.choice([1, 2, 4]))]
    return {"res": res, "msgs": msgs, **({"theme": theme} if theme else {})}


def kw_parse(rng, fmt):
    r = rng.random()
    if r < 0.5:
        return {}
    return {"android": {"android_ascii_spaces": rng.random() < 0.5, "android_literal_quotes": rng.random() < 0.5},
            "gettext": {"gettext_plurals": rng.choice(PLURALS), "gettext_skip_obsolete": rng.random() < 0.5},
            "properties": {"properties_printf_placeholders": True}, "xliff": {"xliff_source_entries": True}}.get(fmt, {})


def kw_serialize(rng, fmt):
    kw = {"trim_comments": True} if rng.random() < 0.3 else {}
    if rng.random() < 0.4:
        kw.update({"gettext": {"gettext_plurals": rng.choice(PLURALS)}, "fluent": {"fluent_escape_syntax": False}, "xliff": {"xliff_source_entries": True}}.get(fmt, {}))
    return kw


def gen_call(rng, sc):
    op = rng.choice(OPS)
    fns = [f for f in FNS if sc.get("theme") and f.startswith(sc["theme"] + "_")]
    if fns and rng.random() < 0.5:
        op = "fn"
    n = len(sc["res"])
    i, j, k = rng.randrange(n), rng.randrange(n), rng.randrange(8)
    fmt = sc["res"][i]["fmt"]
    text = [x for x, m in enumerate(sc["msgs"]) if m[0] != "@"]
    m = rng.choice(text) if op == "parse_message" else rng.randrange(len(sc["msgs"]))
    fluent = [x for x, r in enumerate(sc["res"]) if r["fmt"] == "fluent"]
    if op in ("astify", "fluent_entry", "fluent_parse_entry"):
        if not fluent:
            return gen_call(rng, sc)
        if rng.random() < 0.9:
            i = rng.choice(fluent)
    if op == "fn":
        fn = rng.choice(fns if fns and rng.random() < 0.8 else sorted(FNS))
        # mostly on an argument of the function's own format
        own = fn.split("_")[0]
        if rng.random() < 0.85:
            rs = [x for x, r in enumerate(sc["res"]) if r["fmt"] == own]
            ms = [x for x, y in enumerate(sc["msgs"]) if (y[0] if y[0] != "@" else sc["res"][y[1]]["fmt"]) == own]
            if fn.endswith("_message"):
                i = rng.choice(ms or range(len(sc["msgs"])))
            elif rs:
                i = rng.choice(rs)
            elif fn not in ("properties_serialize", "normalize", "android_locale", "webext_parse_message", "selectors"):
                return gen_call(rng, sc)
        return {"op": op, "fn": fn, "i": i, "k": k, "flag": rng.randrange(60)}
    if op == "parse":
        return {"op": op, "i": i, "as": rng.choice(["name", "name", "format", "none"]), "bytes": rng.random() < 0.5, "kw": kw_parse(rng, fmt)}
    if op == "serialize":
        c = {"op": op, "i": i, "kw": kw_serialize(rng, fmt)}
        if rng.random() < 0.1:
            c["format"] = rng.choice(["properties", "fluent", "plain_json", "ini", "android", "xliff"])
        return c
    if op in ("equal", "add"):
        return {"op": op, "i": i, "j": j, "use": rng.random() < 0.5}
    if op == "detect":
        return {"op": op, "i": i, "as": rng.choice(["name", "none"])}
    if op in ("entry_json", "entry_from_json", "fluent_entry", "fluent_parse_entry"):
        return {"op": op, "i": i, "k": k}
    if op == "astify":
        return {"op": op, "i": i}
    if op == "serialize_message":
        return {"op": op, "i": m, "format": rng.choice([sc["msgs"][m][0] if sc["msgs"][m][0] != "@" else sc["res"][sc["msgs"][m][1]]["fmt"]] * 3 + SER)}
    if op == "equals":
        return {"op": op, "i": m, "j": rng.randrange(len(sc["msgs"]))}
    return {"op": op, "i": m}


def variant(rng, sc, c):
    """The same call with other options."""
    c = dict(c)
    fmt = sc["res"][c["i"] % len(sc["res"])]["fmt"]
    if "flag" in c:
        c["flag"] = rng.randrange(60)
    if c["op"] == "parse":
        c["kw"] = kw_parse(rng, fmt)
    if c["op"] == "serialize":
        c["kw"] = kw_serialize(rng, fmt)
    if rng.random() < 0.3 and c["op"] != "parse_message":
        c["i"] = rng.randrange(len(sc["res"]))
    return c


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


def first_diff(a, b):
    a, b = (x if isinstance(x, str) else json.dumps(x, ensure_ascii=False) for x in (a, b))
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 120):i + 200]!r} != ...{b[max(0, i - 120):i + 200]!r}"


class _Lib(Check):
    real = "all of moz.l10n, fluent.syntax, polib and lxml, in freshly forked interpreter processes"
    stub = "the scheduling of threads and consumers; asynchronous exceptions"
    hang_s = 120
    keep = {"msgs", "res", "kw", "schedule"}

    def __init__(self):
        self.cache = {}

    def alone(self, sc, c):
        """What the call gives in a process that does nothing else."""
        k = json.dumps([sc["res"], sc["msgs"], c], sort_keys=True)
        if k not in self.cache:
            if len(self.cache) > 300:
                self.cache.clear()
            self.cache[k] = fork_run(lambda: call(Pool(sc), c)[0])["r"]
        return self.cache[k]


class R03(_Lib):
    prop = "R03"
    quick_seeds = 4000
    quick_cap = 300.0
    rule = ("A history of 3-14 library calls on a shared pool of 1-4 resources (11 format variants) and 2-6 messages in one fresh process, with deep corruption of returned objects, abandoned serializers, and "
            "exceptions raised at drawn source lines of the library (in part where state that outlives the call may be in use) in between; each call's result is compared with that of the same call in a process of its own, and the arguments before and after each call with each other. "
            "Non-trivial: an exception was injected, a result corrupted or a stream abandoned.")

    def scenarios(self, rng, tier):
        base = gen_pool(rng)
        calls = [gen_call(rng, base) for _ in range(rng.choice([2, 3, 4, 6]))]
        if rng.random() < 0.3:
            calls = [variant(rng, base, calls[0]) for _ in range(rng.choice([2, 3]))]
        steps = []
        for _ in range(rng.choice([3, 6, 9, 14])):
            r = rng.random()
            done = [i for i, s in enumerate(steps) if "call" in s and s["call"]["op"] != "add"]
            if r < 0.3 and done:
                steps.append({"mutate": rng.choice(done[-3:])})
            elif r < 0.4:
                i = rng.randrange(len(base["res"]))
                steps.append({"abandon": {"i": i, "kw": kw_serialize(rng, base["res"][i]["fmt"])}, "n": rng.choice([0, 1, 2, 5])})
            else:
                steps.append({"call": rng.choice(calls)})
        if not any("call" in s for s in steps):
            steps.append({"call": calls[0]})
        steps.append({"call": rng.choice([s["call"] for s in steps if "call" in s])})
        base["steps"] = steps
        yield base
        counts = fork_run(lambda: self.history(base, count=True))
        cand = [i for i, n in enumerate(counts["lines"]) if n]
        for _ in range(5 if tier == "quick" else 20):
            if not cand:
                break
            sc = {**base, "steps": [dict(s) for s in steps]}
            for i in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2, 3]))):
                hot = [h for h in counts["hot"][i] if h]
                if hot and rng.random() < 0.4:  # while it may be using something that outlives the call
                    x = rng.choice(rng.choice(hot)) + rng.choice([0, 1, 1, 1, 2, 3, 5])
                else:
                    x = rng.randint(1, counts["lines"][i])
                sc["steps"][i]["inject"] = [x, rng.choice(sorted(EXC))]
            sc["steps"] += [{"call": s["call"]} for s in sc["steps"] if "inject" in s]
            yield sc

    def history(self, sc, count=False):
        """In a fork: the outcome of each step."""
        pool = Pool(sc)
        vals, out, lines, hot, fired = [], [], [], [], 0
        for s in sc["steps"]:
            v = None
            o = None
            n = 0
            if "mutate" in s:
                j = s["mutate"]
                if 0 <= j < len(vals):
                    corrupt(vals[j])
            elif "abandon" in s:
                try:
                    it = iter(serialize_resource(pool.resource(s["abandon"]["i"]), **s["abandon"]["kw"]))
                    for _ in range(s["n"]):
                        next(it, None)
                    del it
                except Exception:  # noqa: BLE001
                    pass
            else:
                hook = Inject(*s["inject"]) if "inject" in s else Inject() if count else None
                r, v, changed = call(pool, s["call"], hook)
                n = hook.count if hook else 0
                hit = hook is not None and hook.where is not None
                fired += hit
                o = {"r": r["r"], "changed": changed, "hit": hook.where if hit else None}
            vals.append(v)
            out.append(o)
            lines.append(n)
            hot.append(hook.hot if n else [])
        return {"out": out, "lines": lines, "hot": hot, "fired": fired}

    def run(self, sc, st):
        got = fork_run(lambda: self.history(sc))
        st.steps += sum(got["lines"])
        for i, (s, o) in enumerate(zip(sc["steps"], got["out"])):
            st.probe("mutate" if "mutate" in s else "abandon" if "abandon" in s else s["call"]["op"])
            if "call" not in s:
                st.nontrivial = True
                st.note(s)
                continue
            st.commands += 1
            c = s["call"]
            if o["hit"]:
                st.nontrivial = True
                st.fired["exception:" + s["inject"][1]] += 1
                st.probe("injected-at:" + o["hit"].split(":")[0])
            st.note(c, o["hit"], o["r"])
            need(not o["changed"], "argument-changed", f"step {i}, {c}{' broken off at ' + o['hit'] if o['hit'] else ''}: {short(o['changed'], 1200)}")
            if o["hit"]:
                continue
            want = self.alone(sc, c)
            if want and want[0] == "!":
                st.probe("raises")
            need(o["r"] == want, "history-dependent", f"step {i}, {c}: {first_diff(o['r'], want)} (alone)")


class R02(_Lib):
    prop = "R02"
    quick_seeds = 5000
    quick_cap = 300.0
    rule = ("Two to four threads make 1-3 library calls each, on shared and separate resources and messages, in one fresh process; exactly one thread runs at a time and the switches come at drawn source lines or byte codes "
            "of the library, in part where state shared by threads may be in use (module-level objects, attributes, items: worked out from the byte code, as guidance only). Every result must equal that of the same call in a process of its own, and the arguments must be unchanged. Non-trivial: at least one switch took place inside a library call.")

    def scenarios(self, rng, tier):
        fn = rng.choice(sorted(FNS)) if rng.random() < 0.15 else None  # one function for everybody
        base = gen_pool(rng, fn and next((f for f in corpus.FORMATS if fn.startswith(f + "_")), None))
        n = rng.choice([2, 2, 2, 3, 4])
        r = rng.random()
        calls = [gen_call(rng, base) for _ in range(rng.choice([1, 2, 4, 6]))]
        if fn:
            c = {"op": "fn", "fn": fn, "i": rng.randrange(len(base["msgs"] if fn.endswith("_message") else base["res"])), "k": rng.randrange(8), "flag": rng.randrange(60)}
            calls = [c, variant(rng, base, c), variant(rng, base, c)]
        elif rng.random() < 0.4:  # the same function for everybody, with other options
            calls = [variant(rng, base, calls[0]) for _ in range(rng.choice([2, 3]))]
        base["tasks"] = [[rng.choice(calls) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(n)]
        base["opcodes"] = r < 0.3
        base["schedule"] = []
        yield base
        first = fork_run(lambda: self.threads(base, hot=True))
        total, hot = first["points"], first["hot"]
        for _ in range(5 if tier == "quick" else 25):
            sc = dict(base)
            k = sum(total)
            if k < 2:
                break
            mode = rng.random()
            a, b = rng.sample(range(n), 2)
            pick = [h[1] if h[1] and (not h[0] or rng.random() < 0.7) else h[0] for h in (hot[a], hot[b])]
            if pick[0] and rng.random() < 0.3:
                # leave a thread where it may be using something shared, and come back when another has been at such a place (or is done)
                x = rng.choice(pick[0]) + rng.choice([0, 1, 1, 1, 2, 3, 5])
                ks = [[0, a]] if a else []
                ks.append([x + (a > 0), b])
                if pick[1] and rng.random() < 0.7:
                    ks.append([x + 1 + (a > 0) + rng.choice(pick[1]) + rng.choice([0, 1, 1, 1, 2, 3, 5]), a])
                yield {**sc, "schedule": ks}
                continue
            if mode < 0.35:  # few switches
                ks = sorted(rng.sample(range(k), min(k, rng.choice([1, 1, 2, 3]))))
            elif mode < 0.6:  # leave the first thread early on, come back when others are half done
                a = rng.randrange(max(1, total[0]))
                ks = [a, min(k - 1, a + rng.randrange(1, max(2, sum(total[1:]))))]
            elif mode < 0.85:  # round robin with a drawn quantum
                q = rng.choice([1, 2, 3, 7, 20, 100])
                ks = list(range(rng.randrange(q), k, q))[:3000]
            else:
                ks = [x for x in range(k) if rng.random() < 0.1][:3000]
            sc["schedule"] = [[x, (i + 1) % n if mode >= 0.6 and mode < 0.85 else rng.randrange(n)] for i, x in enumerate(ks)]
            yield sc

    def threads(self, sc, hot=False):
        pool = Pool(sc)
        prep, fns, args = [], [], []
        for t, calls in enumerate(sc["tasks"]):
            mine = []
            for c in calls:
                try:
                    fn, a = prepare(pool, c)
                    args.append((c, a, [json.dumps(dump(x)) for x in a]))
                except HarnessError:
                    raise
                except Exception as e:  # noqa: BLE001
                    fn = type(e).__name__
                mine.append(fn)
            prep.append(mine)

        def body(mine):
            out = []
            for fn in mine:
                if isinstance(fn, str):
                    out.append(["unprepared", fn])
                    continue
                try:
                    out.append(["=", fn()])
                except HarnessError:
                    raise
                except Exception as e:  # noqa: BLE001
                    out.append(e)
            return out

        th = Threads([lambda m=m: body(m) for m in prep], sc["schedule"], sc["opcodes"], hot)
        res = th.run()
        changed = [f"{c}: argument {i} was {b}, became {json.dumps(dump(x))}" for c, a, bs in args for i, (x, b) in enumerate(zip(a, bs)) if json.dumps(dump(x)) != b]
        return {"out": [[dump(r) if isinstance(r, BaseException) else [r[0], dump(r[1])] for r in rs] for rs in res],
                "changed": changed[:1], "points": th.counts, "switches": th.switches, "hot": th.hot}

    def run(self, sc, st):
        got = fork_run(lambda: self.threads(sc))
        st.steps += sum(got["points"])
        inner = got["switches"]
        if inner:
            st.nontrivial = True
            st.fired["thread-switch"] += inner
        st.note(sc["schedule"], sc["tasks"], got["points"])
        for t, (calls, rs) in enumerate(zip(sc["tasks"], got["out"])):
            for c, r in zip(calls, rs):
                st.commands += 1
                st.probe(c["op"])
                want = self.alone(sc, c)
                need(r == want, "interference", f"thread {t}, {c}: {first_diff(r, want)} (alone)")
        need(not got["changed"], "argument-changed", short(got["changed"], 1200))


class R04(_Lib):
    prop = "R04"
    quick_seeds = 4000
    quick_cap = 300.0
    rule = ("One to five serializer streams over 1-4 resources (11 format variants, with options) are advanced, paused, closed, abandoned, or broken off by exceptions thrown into them or raised at drawn source lines, interleaved with other library calls; "
            "each stream that is consumed to its end must give the text that it gives in a process of its own, and no resource may change at any point. Non-trivial: at least two streams were interleaved, or one was abandoned or broken off.")

    def scenarios(self, rng, tier):
        base = gen_pool(rng)
        n = rng.choice([1, 2, 2, 3, 5])
        streams = []
        for _ in range(n):
            i = rng.randrange(len(base["res"]))
            s = {"op": "serialize", "i": i, "kw": kw_serialize(rng, base["res"][i]["fmt"])}
            own = base["res"][i]["fmt"]
            if rng.random() < 0.25 and (own in STREAMS or rng.random() < 0.2):
                s["fn"] = own if own in STREAMS else "properties"
                s["flag"] = rng.randrange(60)
            elif rng.random() < 0.1:
                s["format"] = rng.choice(["properties", "fluent", "plain_json", "ini", "android", "xliff"])
            streams.append(s)
        if n > 1 and rng.random() < 0.4:
            streams[1] = dict(streams[0])
        base["streams"] = streams
        for _ in range(4 if tier == "quick" else 20):
            sc = dict(base)
            acts = []
            for _ in range(rng.choice([2, 6, 15, 40])):
                s = rng.randrange(n)
                r = rng.random()
                if r < 0.72:
                    acts.append(["next", s])
                elif r < 0.78:
                    acts.append(["close", s])
                elif r < 0.83:
                    acts.append(["throw", s, rng.choice(sorted(EXC))])
                elif r < 0.91:
                    acts.append(["inject", s, rng.choice([1, 2, 3, 5, 8, 13, 30, 60, 120]) + rng.randrange(4), rng.choice(sorted(EXC))])
                else:
                    acts.append(["call", gen_call(rng, base)])
            sc["acts"] = acts
            yield sc

    def streams(self, sc):
        pool = Pool(sc)
        its, pieces, state = [], [], []
        watch = {}
        changed = []
        fired = []
        inter = 0
        calls = []

        def check(what):
            for i, b in watch.items():
                a = json.dumps(dump(pool.res[i]))
                if a != b and not changed:
                    changed.append(f"{what}: resource {i} was {b}, became {a}")

        for s in sc["streams"]:
            try:
                res = pool.resource(s["i"])
                watch[s["i"]] = json.dumps(dump(res))
                its.append(stream(res, s))
                state.append("new")
            except HarnessError:
                raise
            except Exception as e:  # noqa: BLE001
                its.append(None)
                state.append(dump(e) if s["i"] in watch else ["unprepared", type(e).__name__])
            pieces.append([])
            check(f"starting {s}")

        def step(k, hook=None):
            nonlocal inter
            if its[k] is None or isinstance(state[k], list) or state[k] in ("end", "off"):
                return
            if any(x == "open" for i, x in enumerate(state) if i != k):
                inter += 1
            try:
                if hook is None:
                    p = next(its[k])
                else:
                    with hook:
                        p = next(its[k])
                pieces[k].append(p)
                state[k] = "open"
            except StopIteration:
                state[k] = "end"
            except HarnessError:
                raise
            except BaseException as e:  # noqa: BLE001
                state[k] = "off" if hook is not None and hook.where else dump(e)
            if hook is not None and hook.where:
                fired.append(["exception-at-line", hook.where])
                state[k] = "off"

        for a in sc["acts"]:
            if a[0] == "call":
                c = a[1]
                r, _, ch = call(pool, c)
                calls.append([c, r["r"]])
                if ch and not changed:
                    changed.append(f"{c}: {ch}")
            else:
                k = a[1] % len(its)
                if a[0] == "next":
                    step(k)
                elif a[0] == "inject":
                    step(k, Inject(a[2], a[3]))
                elif its[k] is not None and not isinstance(state[k], list) and state[k] not in ("end", "off"):
                    if a[0] == "close" or not hasattr(its[k], "throw"):
                        if hasattr(its[k], "close"):
                            its[k].close()
                        fired.append(["abandoned", ""])
                    else:
                        try:
                            its[k].throw(EXC[a[2]]("thrown"))
                        except BaseException:  # noqa: BLE001
                            pass
                        fired.append(["thrown", ""])
                    state[k] = "off"
            check(a)
        for k in range(len(its)):
            while state[k] in ("new", "open"):
                step(k)
            check(f"finishing {k}")
        return {"r": [x if isinstance(x, list) else ["=", "".join(p)] if x == "end" else None for x, p in zip(state, pieces)],
                "changed": changed, "fired": fired, "inter": inter, "calls": calls, "pieces": [len(p) for p in pieces]}

    def run(self, sc, st):
        got = fork_run(lambda: self.streams(sc))
        st.steps += sum(got["pieces"])
        st.commands += len(sc["streams"]) + len(got["calls"])
        for k, w in got["fired"]:
            st.fired[k] += 1
            if w:
                st.probe("injected-at:" + w.split(":")[0])
        if got["inter"]:
            st.fired["stream-switch"] += got["inter"]
        st.nontrivial = bool(got["fired"] or got["inter"])
        st.note(sc["streams"], sc["acts"], got["r"])
        need(not got["changed"], "resource-changed", short(got["changed"] and got["changed"][0], 1300))
        for s, r in zip(sc["streams"], got["r"]):
            if r is None:
                continue
            st.probe("completed" if r[0] == "=" else r[0])
            want = self.alone(sc, s)
            need(r == want, "stream-differs", f"{s}: {first_diff(r, want)} (alone)")
        for c, r in got["calls"]:
            want = self.alone(sc, c)
            need(r == want, "call-differs", f"{c}: {first_diff(r, want)} (alone)")


class R01(Check):
    prop = "R01"
    quick_seeds = 12000
    rule = ("A file in one of 11 format variants (or broken, or unsupported) is parsed by its path while the simulator shortens, interrupts and fails reads, kills nothing, and renames other versions over the file or removes it, before drawn system calls; "
            "the result must be that of the complete bytes of one version, or an error. In 3 of 10 runs it is then replaced or rewritten by further versions, often of the same size and always of the same time, and parsed again. Non-trivial: at least one fault or replacement took place.")

    def scenarios(self, rng, tier):
        f = rng.choice(corpus.FORMATS)
        ext = corpus.EXT[f] if rng.random() < 0.95 else rng.choice([".txt", ".json", ".xml", ""])
        versions = []
        for v in range(rng.choice([1, 2, 2, 3])):
            r = rng.random()
            if r < 0.72:
                t = corpus.resource(rng, f).encode("utf-8")
            elif r < 0.8:
                t = corpus.resource(rng, rng.choice(corpus.FORMATS)).encode("utf-8")
            elif r < 0.88:
                t = corpus.resource(rng, f).encode("utf-8")
                t = t[: rng.randrange(len(t) + 1)]
            elif r < 0.93:
                t = gen.broken(rng, f if f in gen.FORMATS else "xliff")
            elif r < 0.96:
                t = corpus.resource(rng, f, n=60 if rng.random() < 0.8 else 1200).encode("utf-8")
            else:
                t = rng.choice([b"", b"\n", b"\xff\xfe\x00", b"\xef\xbb\xbf" + t if versions else b" "])
            versions.append(hexed(t))
        # some names could also be the contents of a file
        name = rng.choice(["f", "f", "f", "#f", "# f", "a = b", "a=b", 'msgid "a"', "é 1", "-", "f.ftl.x", ".f", "{f}"])
        base = {"path": "/sim/d/" + name + ext, "versions": versions, "faults": [], "kw": kw_parse(rng, "xliff" if f in corpus.XCODE else f),
                "how": rng.choice(["abs", "abs", "rel", "name", "link"])}
        self.env(rng, base)
        yield base
        log = self.trace(base)
        evs = [e for e in log if e[2] == base["path"] or e[1] in ("read", "open", "stat", "fstat")]
        for _ in range(7 if tier == "quick" else 40):
            sc = dict(base)
            self.env(rng, sc)
            fs = plan(rng, log, allow=("errno", "benign", "nomem", "interrupt"), n=rng.choice([0, 1, 1, 2])) if evs else []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ev = rng.choice(evs)
                do = {"do": "remove", "path": sc["path"]}
                if rng.random() < 0.75:
                    v = rng.randrange(len(versions))
                    do = {"do": "replace", "path": sc["path"], "hex": content(versions[v]).hex()}
                # the file may be read more than once by a changed implementation
                nth = ev[3] if rng.random() < 0.6 else ev[3] + rng.choice([1, 2])
                fs.append({"op": 0, "kind": ev[1], "path": ev[2], "nth": nth, "action": "env", "do": do})
            sc["faults"] = fs
            if rng.random() < 0.3:
                # later versions, parsed in turn; the clock of the file system may be too coarse to tell them apart
                sc["then"] = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    t = content(rng.choice(versions))
                    if rng.random() < 0.6:
                        a, b = rng.choice([(b"V", b"W"), (b"e", b"a"), (b"1", b"2"), (b"n", b"m"), (b"t", b"d")])
                        t = t.replace(a, b)
                    sc["then"].append({**hexed(t), "in_place": rng.random() < 0.5})
            yield sc

    def env(self, rng, sc):
        sc["bufsize"] = rng.choice([8192, 8192, 1, 7, 64, 512])
        sc["encoding"] = rng.choice(["utf-8", "utf-8", "cp1252", "ascii"])

    def run(self, sc, st):
        w = mkworld(sc, {sc["path"]: sc["versions"][0], "/sim/d/other.txt": {"text": "x"}})
        if sc["how"] == "link":
            w.put("/sim/ln/" + sc["path"][len("/sim/d/"):], {"link": sc["path"]})
        try:
            self.body(sc, st, w)
        finally:
            st.world(w)

    def body(self, sc, st, w):
        p = sc["path"]
        arg = {"abs": p, "rel": p[len("/sim/"):], "name": p[len("/sim/d/"):], "link": "/sim/ln/" + p[len("/sim/d/"):]}[sc["how"]]
        w.cwd = "/sim/d" if sc["how"] == "name" else "/sim"
        w.faults = sc["faults"]
        before = w.snapshot()
        o = run_callable(w, lambda: dump(parse_resource(arg, **sc["kw"])))
        st.out(o)
        seen = [content(sc["versions"][0])]
        for i in w.fired_faults:
            f = w.faults[i]
            if f["action"] == "env":
                seen.append(bytes.fromhex(f["do"]["hex"]) if f["do"]["do"] == "replace" else None)
        hard = hard_fired(w)
        env = len(seen) > 1
        ok = []
        for b in dict.fromkeys(seen):
            if b is None:
                continue
            try:
                ok.append(dump(parse_resource(p, b, **sc["kw"])))
            except Exception:  # noqa: BLE001
                ok.append(None)
        if o.exit == 0:
            st.probe("parsed")
            need(o.value in [x for x in ok if x is not None], "not-a-version",
                 f"parse_resource({arg!r}) gave {short(o.value, 500)}, which is not the content of any version that was there ({len(seen)} versions)")
        else:
            st.probe("raised:" + str(o.exc_type))
            need(hard or None in ok or None in seen, "good-file-refused", f"parse_resource({arg!r}) raised {o.exc}, but every version can be parsed and no read failed")
        if not env:
            need(w.snapshot() == before, "disk-changed", "parsing changed the disk")
        w.faults = []
        for v in sc.get("then", ()):
            b = content(v)
            w.env({"do": "rewrite" if v.get("in_place") and w.exists(p) else "replace", "path": p, "hex": b.hex()})
            try:
                want = dump(parse_resource(p, b, **sc["kw"]))
            except Exception:  # noqa: BLE001
                want = None
            o = run_callable(w, lambda: dump(parse_resource(arg, **sc["kw"])))
            st.out(o)
            need((o.value if o.exit == 0 else None) == want, "stale", f"parse_resource({arg!r}) of the new version gave {o.exc or short(o.value, 500)}, not {short(want, 500)}")
            st.probe("parsed again")


__all__ = ["random", "is_benign"]
