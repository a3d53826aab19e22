"""Generated localization projects: a config, source files and localizations, and what building
them must give, worked out from the specs (not with moz.l10n)."""
from __future__ import annotations

import random

from . import gen

CFG = "/sim/cfg/l10n.toml"
BASE = "/sim/l10n"
TARGET = "/sim/out"
LOCALES = ["fr", "de", "nb-NO", "zh-Hant", "zz"]


def clone(x):
    import json

    return json.loads(json.dumps(x))


def derive_l10n(rng, src, toks, tag, p_have=0.75):
    """A localization of the source spec: some entries missing, some unknown, shuffled, other variants."""
    fmt = src["fmt"]
    out = []
    for e in src["entries"]:
        if rng.random() > p_have:
            continue
        kind = e["var"] if fmt == "android" and e["var"] in ("array", "plurals") else None
        attrs = None
        if fmt == "fluent":
            sa = list(e.get("attrs") or {})
            r = rng.random()
            if r < 0.6:
                attrs = sa
            elif r < 0.75:
                attrs = sa + [a for a in ("label", "extra") if a not in sa]
            elif r < 0.9:
                attrs = [a for a in sa if rng.random() < 0.5]
            else:
                attrs = [rng.choice(["label", "accesskey", "other"])]
            rng.shuffle(attrs)
        var = kind
        if var is None:
            opts = [v for v in gen.VARIANTS[fmt] if v not in ("array", "plurals", "term", "notarget")]
            if fmt == "webext":
                opts = [e["var"]] if rng.random() < 0.7 else opts
            if fmt == "gettext":
                opts = [e["var"]] if e["var"] == "plural" else [v for v in opts if v != "plural"]
            var = rng.choice(opts)
        out.append(gen.gen_entry(rng, fmt, toks, 0, tag, id=e["id"], variant=var, attrs=attrs))
        if fmt == "android" and kind == "array":
            out[-1]["n"] = rng.choice([e["n"], e["n"], 1, 3])
    for j in range(rng.choice([0, 0, 1, 2])):
        x = gen.gen_entry(rng, fmt, toks, 90 + j, tag)
        x["id"][-1] = "Extra" + x["id"][-1] if fmt != "fluent" or not x["id"][0].startswith("-") else "-extra" + x["id"][0][1:]
        out.insert(rng.randint(0, len(out)), x)
    if fmt not in ("ini", "xliff") and rng.random() < 0.4:
        rng.shuffle(out)
    spec = gen.gen_spec(rng, fmt, toks, entries=out)
    if fmt == "xliff":
        spec["bilingual"] = True
    return spec


def keyed(spec):
    """[(message id, [value tokens], {attr: token}, entry)] in the order of the file."""
    fmt = spec["fmt"]
    out = []
    ents = spec["entries"]
    if fmt == "ini":
        ents = gen.split_ini(spec)
    if fmt == "plain_json":
        # nested objects bring their members together
        order = {}
        root = {}
        for e in ents:
            d = root
            for part in e["id"][:-1]:
                d = d.setdefault(part, {})
            d[e["id"][-1]] = e

        def rec(d):
            for v in d.values():
                if "tok" in v and "var" in v:
                    yield v
                else:
                    yield from rec(v)

        ents = list(rec(root))
        del order
    for e in ents:
        id = tuple(e["id"])
        if fmt == "android":
            kind = e["var"]
            if kind == "array":
                for i in range(e.get("n", 2)):
                    out.append(((*id, str(i)), [e["tok"]], {}, e))
                continue
        val = [e["tok"]]
        if e["var"] in ("attr_only", "notarget"):
            val = [] if e["var"] == "attr_only" or spec.get("bilingual", True) else val
        out.append((id, val, dict(e.get("attrs") or {}), e))
    return out


def merged(src, l10n):
    """(expected [[tokens of one message]], total, [missing ids]) of a built file."""
    fmt = src["fmt"]
    have = {}
    if l10n is not None:
        for id, val, attrs, e in keyed(l10n):
            have[id] = (val, attrs)
    exp, missing = [], []
    srcs = keyed(src)
    for id, val, attrs, e in srcs:
        if id in have:
            lv, la = have[id]
            if fmt == "fluent" and not id[0].startswith("-"):
                if not set(attrs) <= set(la):
                    missing.append(id)
                    continue
                la = {k: v for k, v in la.items() if k in attrs}
            exp.append(lv + list(la.values()))
        else:
            missing.append(id)
            if fmt != "fluent":
                exp.append(val + list(attrs.values()))
    return exp, len(srcs), missing


def jid(id):
    return id[0] if len(id) == 1 else list(id)


def gen_project(rng, *, android_dirs=False, allow_bad=True, elsewhere=False):
    """{"files": {path: item}, "items": [...], "locales": [...], "args": [...]}"""
    toks = gen.Toks()
    files = {}
    locales = rng.sample(LOCALES, rng.choice([1, 1, 2, 3, 5]))
    srcdir = rng.choice(["en", "src/en-US", "en"])
    n = rng.choice([1, 1, 2, 3, 4])
    fmts = [rng.choice(gen.FORMATS) for _ in range(n)]
    entries = []  # config [[paths]]
    items = []
    incl = rng.random() < 0.25
    bad_at = rng.randrange(n * 6) if allow_bad and rng.random() < 0.3 else None
    k = 0
    for i, fmt in enumerate(fmts):
        ext = gen.EXT[fmt]
        rel = rng.choice([f"f{i}{ext}", f"browser/f{i}{ext}", f"browser/sub dir/f{i}{ext}", f"b{i}/f.é{ext}"])
        unknown = rng.random() < 0.12
        if unknown:
            rel = rel.rsplit(ext, 1)[0] + rng.choice([".txt", ".png", ".md"])
        src_path = f"/sim/cfg/{srcdir}/{rel}"
        template = f"{{locale}}/{rel}"
        if fmt == "gettext" and not unknown and rng.random() < 0.4:
            src_path += "t"  # a .pot template
            if rng.random() < 0.5:
                template += "t"
        if android_dirs and fmt == "android" and rng.random() < 0.5:
            template = f"res/values-{{android_locale}}/f{i}.xml"
        elif elsewhere and rng.random() < 0.12:
            template = rng.choice(["res/", "a/fr/"]) + template
        elif elsewhere and rng.random() < 0.06:
            template = template.replace("/", "/fr/", 1)
        spec = gen.gen_spec(rng, fmt, toks, tag="s", entries=[] if fmt != "plain_json" and rng.random() < 0.08 else None)
        if unknown:
            files[src_path] = {"text": f"source text {toks('s')}\n", "unknown": 1}
        else:
            files[src_path] = {"spec": spec}
        if bad_at == k and not unknown:
            b = gen.broken(rng, fmt)
            files[src_path] = gen_hex(b)
        k += 1
        plocales = None
        if rng.random() < 0.2:
            plocales = rng.sample(LOCALES, rng.choice([1, 2, 4]))
        item = {"src": src_path, "template": template, "fmt": fmt, "plocales": plocales, "wild": False, "incl": incl and rng.random() < 0.5}
        for lc in LOCALES:
            if lc not in locales and rng.random() < 0.7:
                continue
            lp = BASE + "/" + target_rel(template, lc)
            r = rng.random()
            if r < 0.2:
                pass
            elif unknown:
                files[lp] = {"text": f"l10n text {lc} {toks('l')}\n", "unknown": 1}
            else:
                files[lp] = {"spec": derive_l10n(rng, spec, toks, "l")}
                if rng.random() < 0.05:
                    files[lp] = {"text": ""}
                if rng.random() < 0.04 and fmt in ("webext", "plain_json"):
                    other = "webext" if fmt == "plain_json" else "plain_json"
                    files[lp] = {"spec": gen.gen_spec(rng, other, toks, tag="l")}
            if bad_at == k and lp in files and not unknown:
                b = gen.broken(rng, fmt)
                files[lp] = gen_hex(b)
            k += 1
        items.append(item)
    # the config: explicit entries, or one wildcard entry for all files with the same extension
    main, sub = [], []
    for it in items:
        rel = it["src"][len("/sim/cfg/"):]
        ent = {"reference": rel, "l10n": it["template"]}
        if rng.random() < 0.2:
            ent["l10n"] = "{l10n_base}/" + ent["l10n"]
        if it["plocales"]:
            ent["locales"] = it["plocales"]
        if len(items) == 1 and it["template"].startswith("{locale}/" + rel[len(srcdir) + 1:].rsplit(".", 1)[0]) and "." in rel and rng.random() < 0.6 and not it["template"].endswith("pott"):
            ext = "." + rel.rsplit(".", 1)[1]
            text = it["template"].rsplit(".", 1)[1]
            ent["reference"], ent["l10n"] = f"{srcdir}/**/*{ext}", f"{{locale}}/**/*.{text}"
            it["wild"] = True
        (sub if it["incl"] else main).append(ent)

    def toml(ents, includes=()):
        s = 'basepath = "."\n'
        if rng.random() < 0.5:
            s += f"locales = {['fr', 'de']!r}\n".replace("'", '"')
        for e in ents:
            s += "[[paths]]\n"
            for kk, v in e.items():
                s += f"{kk} = {v!r}\n".replace("'", '"') if isinstance(v, list) else f'{kk} = "{v}"\n'
        for x in includes:
            s += f'[[includes]]\npath = "{x}"\n'
        return s

    files[CFG] = {"text": toml(main, ["sub.toml"] if sub else []), "keep": 1}
    if sub:
        files["/sim/cfg/sub.toml"] = {"text": toml(sub), "keep": 1}
    files["/sim/other/keep.ftl"] = {"text": "keep = me\n"}
    files["/sim/l10n/fr/unrelated.txt"] = {"text": "unrelated\n"}
    return {"files": files, "items": items, "locales": locales, "verbose": rng.choice([0, 0, 1, 2])}


def gen_hex(b):
    try:
        return {"text": b.decode("utf-8"), "bad": 1}
    except UnicodeDecodeError:
        return {"hex": b.hex(), "bad": 1}


def target_rel(template, lc):
    al = {"nb-NO": "nb-rNO", "zh-Hant": "b+zh+Hant"}.get(lc, lc)
    p = template.replace("{locale}", lc).replace("{android_locale}", al)
    return p[:-1] if p.endswith(".pot") else p


def jobs(sc):
    """[(item, locale, source path, l10n path, path below the target)] in build order is unspecified."""
    out = []
    for it in sc["items"]:
        for lc in sc["locales"]:
            if it["plocales"] and lc not in it["plocales"]:
                continue
            rel = target_rel(it["template"], lc)
            out.append((it, lc, it["src"], BASE + "/" + rel, rel))
    return out


def build_args(sc, target=TARGET, coverage=False, locales=None):
    a = ["build", *["-v"] * sc.get("verbose", 0), "--config", CFG, "--base", sc.get("base", BASE), "--target", target, "--locales", ",".join(locales or sc["locales"])]
    if coverage:
        a.append("--coverage")
    return a
