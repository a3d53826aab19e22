"""Workload generator: localization files of every supported format.

A *spec* is plain JSON data: {"fmt": ..., "entries": [...], ...}; `render(spec)` is an
independent renderer (it shares no code with moz.l10n).  Each message value carries a
unique token (`tok`), so that every token found in an output is attributable to exactly
one place in the input.
"""
from __future__ import annotations

import json
import random
from xml.sax.saxutils import escape as xesc

FORMATS = ["fluent", "properties", "ini", "dtd", "inc", "gettext", "plain_json", "webext", "android", "xliff"]
EXT = {
    "fluent": ".ftl", "properties": ".properties", "ini": ".ini", "dtd": ".dtd", "inc": ".inc",
    "gettext": ".po", "plain_json": ".json", "webext": ".json", "android": ".xml", "xliff": ".xliff",
}

WORDS = ["open", "close", "tab", "menu", "label", "title", "quit", "save", "find", "print", "undo", "zoom"]
TAILS = ["", "", "", " é", " 你好", " \u202fx", " it’s", " 😀", " ñ ß", " (x)", " 50 percent", " a, b; c"]


# identifiers with characters that need escapes or look like syntax
ODD_IDS = {
    "properties": ["%s ", " %s", "%s:", "%s=", "%s\\", "#%s", "!%s", "%s\t", "%s\n", "C:\\%s", "%s\\u00"],
    "ini": ["%s#", "%s ", "%s\\", "%sé", "%s;", "%s%%"],
    "dtd": ["%sé", "_%s", "%s:x"],
    "inc": ["%sé"],
    "gettext": ["%s\t", "%s\\", "%s\\n", "%s\r", " %s "],
    "plain_json": ['%s"', "%s\\", "%s/", "%s\t", "%s\u2028", "@%s"],
    "webext": ["%s@", "_%s", "@@%s"],
    "android": ["%s.", "_%s.x"],
    "xliff": ["%s&", '%s"', "%s<", "%s'", "%s\u00a0"],
}


def ident(rng: random.Random, fmt: str, i: int) -> list[str]:
    w = rng.choice(WORDS)
    if fmt in ODD_IDS and rng.random() < 0.08:
        odd = f"{rng.choice(ODD_IDS[fmt]) % w}{i}"
        if fmt == "ini":
            return [rng.choice(["Strings", "Sec#2", "S\\é"]), odd]
        return ["f&1" if rng.random() < 0.3 else "f1", odd] if fmt == "xliff" else [odd]
    if fmt == "fluent":
        return [rng.choice([f"{w}-{i}", f"{w}_{i}", f"{w.title()}{i}", f"{w}{i}"])]
    if fmt == "properties":
        return [rng.choice([f"{w}.{i}", f"{w}-{i}", f"{w}{i}", f"{w}.sub.k{i}", f"{w}_{i}\u00e9"])]
    if fmt == "ini":
        return [rng.choice(["Strings", "Other", "Sec 2"]), rng.choice([f"{w}{i}", f"{w.title()}Key{i}", f"{w}-{i}"])]
    if fmt == "dtd":
        return [rng.choice([f"{w}.{i}", f"{w}{i}.label", f"{w}-{i}", f"{w}_{i}"])]
    if fmt == "inc":
        return [rng.choice([f"{w.upper()}_{i}", f"moz_{w}_{i}", f"{w}{i}"])]
    if fmt == "gettext":
        base = rng.choice([f"{w} {i}", f"The {w} number {i}.", f"{w}\nline {i}", f'Say "{w}" {i}', f"{w} {i} é"])
        return [base, rng.choice(["ctx", "other ctx"])] if rng.random() < 0.25 else [base]
    if fmt == "plain_json":
        d = rng.randint(1, 3)
        # directories and leaves use disjoint names so nesting never collides
        return [rng.choice([f"grp{rng.randint(0, 2)}", "g.dot", "G é"]) for _ in range(d - 1)] + [
            rng.choice([f"{w}{i}", f"{w} {i}", f"{w}.{i}"])
        ]
    if fmt == "webext":
        return [rng.choice([f"{w}{i}", f"{w}_{i}", f"{w.upper()}{i}"])]
    if fmt == "android":
        return [rng.choice([f"{w}_{i}", f"{w}{i}"])]
    if fmt == "xliff":
        return ["f%d" % rng.randint(1, 2), rng.choice([f"{w}.{i}", f"{w} {i}", f"{w}{i}"])]
    raise ValueError(fmt)


VARIANTS = {
    "fluent": ["plain", "plain", "attrs", "attr_only", "multi", "var", "select", "term", "func", "literal", "ref"],
    "properties": ["plain", "plain", "escape", "cont", "printf", "colon", "trail", "hash"],
    "ini": ["plain", "plain", "cont", "punct"],
    "dtd": ["plain", "plain", "apos", "entity", "multi", "quoteent"],
    "inc": ["plain", "plain", "punct"],
    "gettext": ["plain", "plain", "multi", "plural", "flags", "quote"],
    "plain_json": ["plain", "plain", "multi", "quote"],
    "webext": ["plain", "plain", "ph", "arg", "dollar", "quote", "ph2"],
    "android": ["plain", "plain", "html", "ph", "plurals", "array", "quote", "entity", "xg"],
    "xliff": ["plain", "plain", "notarget", "inline", "note", "state", "quote"],
}


class Toks:
    """Unique token source."""

    def __init__(self, prefix="V"):
        self.n = 0
        self.prefix = prefix

    def __call__(self, tag=""):
        self.n += 1
        return f"{self.prefix}{self.n}{tag}z"


def gen_entry(rng, fmt, toks, i, tag="", id=None, variant=None, attrs=None):
    v = variant or rng.choice(VARIANTS[fmt])
    e = {"id": id or ident(rng, fmt, i), "var": v, "tok": toks(tag), "tail": rng.choice(TAILS)}
    if fmt == "fluent":
        if v == "term" and id is None:
            e["id"] = ["-" + e["id"][0]]
        if e["id"][0].startswith("-"):
            e["var"] = v = "term"
        elif v == "term":
            e["var"] = v = "plain"
        if attrs is not None:
            e["attrs"] = {a: toks(tag) for a in attrs}
            if v in ("attrs", "attr_only") and not attrs:
                e["var"] = "plain"
            if e["var"] not in ("attrs", "attr_only", "term") and attrs:
                e["var"] = "attrs"
        elif v in ("attrs", "attr_only") or (v == "term" and rng.random() < 0.3):
            names = rng.sample(["label", "accesskey", "title", "tooltiptext"], rng.randint(1, 3))
            e["attrs"] = {a: toks(tag) for a in names}
    if fmt == "android" and v == "array":
        e["n"] = rng.randint(1, 3)
    if rng.random() < 0.3:
        e["comment"] = rng.choice([f"C{toks('c')} note", f"C{toks('c')} two\nlines here", f"C{toks('c')} é"])
    return e


def gen_spec(rng, fmt, toks, n=None, tag="", entries=None):
    if n is None:
        n = rng.choice([1, 2, 3, 4, 6, 9])
    fresh = entries is None
    spec = {"fmt": fmt, "entries": entries if entries is not None else [gen_entry(rng, fmt, toks, i, tag) for i in range(n)]}
    if fresh and n > 1 and rng.random() < 0.3:
        near(rng, spec, toks, tag)
    if rng.random() < 0.3:
        spec["head"] = f"C{toks('h')} License header\nsecond line"
    if rng.random() < 0.15:
        spec["mid"] = f"C{toks('m')} standalone"
    if rng.random() < 0.15:
        spec["style"] = rng.choice(["crlf", "messy", "nonl"])
    if fmt == "gettext":
        spec["nplurals"] = rng.choice([2, 3])
        if rng.random() < 0.15:  # what the header says about plural forms: None is nothing
            spec["plural_header"] = rng.choice([None, None, *range(1, spec["nplurals"])])
    if fmt == "xliff":
        spec["bilingual"] = rng.random() < 0.7
    if fmt == "ini":
        spec["entries"].sort(key=lambda e: e["id"][0])
        if rng.random() < 0.15:
            spec["split"] = rng.randint(0, 9)
    if fmt == "xliff":
        spec["entries"].sort(key=lambda e: e["id"][0])
    return spec


def near(rng, spec, toks, tag):
    """Adds a message with almost the same identifier as another one."""
    fmt = spec["fmt"]
    e = rng.choice(spec["entries"])
    id = list(e["id"])
    k = 0 if fmt == "gettext" else -1
    id[k] = rng.choice([str.swapcase, str.swapcase, lambda s: s + "x", lambda s: s[:-1] + s[-1] * 2])(id[k])
    if id not in [x["id"] for x in spec["entries"]]:
        spec["entries"].insert(rng.randint(0, n) if (n := len(spec["entries"])) else 0, gen_entry(rng, fmt, toks, 0, tag, id=id, variant="term" if id[0][0] == "-" and fmt == "fluent" else "plain"))


def split_ini(spec):
    """The entries in the order of the file, with a section occurring twice."""
    ents = spec["entries"]
    if "split" in spec and ents:
        first = [i for i, e in enumerate(ents) if e["id"][0] == ents[0]["id"][0]]
        if 1 < len(first) < len(ents):
            i = first[spec["split"] % len(first)]
            return [*ents[:i], *ents[i + 1 :], ents[i]]
    return ents


def render(spec) -> str:
    text = globals()["r_" + spec["fmt"]](spec)
    st = spec.get("style")
    if st == "crlf" and spec["fmt"] in ("fluent", "properties", "dtd", "gettext", "plain_json", "webext", "ini"):
        text = text.replace("\n", "\r\n")
    elif st == "nonl" and text.endswith("\n"):
        text = text[:-1]
    return text


def _val(e):
    return e["tok"] + e["tail"]


def r_fluent(spec):
    out = []
    messy = spec.get("style") == "messy"
    if "head" in spec:
        out += ["### " + ln for ln in spec["head"].split("\n")] + [""]
    for k, e in enumerate(spec["entries"]):
        if "mid" in spec and k == 1:
            out += ["", "## " + spec["mid"], ""]
        if "comment" in e:
            out += ["# " + ln for ln in e["comment"].split("\n")]
        t, v, name = _val(e), e["var"], e["id"][0]
        eq = " =   " if messy else " = "
        if v in ("plain", "attrs", "term"):
            out.append(f"{name}{eq}{t}")
        elif v == "attr_only":
            out.append(f"{name} =")
        elif v == "multi":
            out += [f"{name} =", f"    {t}", "", "    more {$x}"]
        elif v == "var":
            out.append(f"{name}{eq}{t} {{ $user }} end{{$b}}")
        elif v == "select":
            out += [f"{name} =", "  { $n ->", f"      [one] {t} one", "      [few] few", f"     *[other] {t} {{ $n }} others", "  }"]
        elif v == "func":
            out.append(f'{name}{eq}{t} {{ NUMBER($n, minimumFractionDigits: 2) }}')
        elif v == "literal":
            out.append(f'{name}{eq}{t} {{ "{{" }} x {{ "" }}')
        elif v == "ref":
            out.append(f"{name}{eq}{t} {{ -brand }} {{ other-msg.attr }}")
        for a, tok in (e.get("attrs") or {}).items():
            out.append(f"    .{a} = {tok}")
        if messy:
            out += ["", ""]
    return "\n".join(out) + "\n"


def _prop_key(name):
    for c, r in (("\\", "\\\\"), (" ", "\\ "), (":", "\\:"), ("=", "\\="), ("\t", "\\t"), ("\n", "\\n")):
        name = name.replace(c, r)
    return "\\" + name if name[0] in "#!" else name


def r_properties(spec):
    out = []
    messy = spec.get("style") == "messy"
    if "head" in spec:
        out += ["# " + ln for ln in spec["head"].split("\n")] + [""]
    for k, e in enumerate(spec["entries"]):
        if "mid" in spec and k == 1:
            out += ["", "# " + spec["mid"], ""]
        if "comment" in e:
            out += [("! " if messy else "# ") + ln for ln in e["comment"].split("\n")]
        t, v, name = _val(e), e["var"], e["id"][0]
        sep = {"colon": " : "}.get(v, "=" if messy else " = ")
        if v == "escape":
            t = t + " \\u00e9\\n\\t\\\\ back"
        elif v == "cont":
            t = t + " \\\n    cont line"
        elif v == "printf":
            t = t + " %S %1$S %%"
        elif v == "trail":
            t = t + " \\u0020"
        elif v == "hash":
            t = t + " # ! = : not a comment"
        out.append(f"{_prop_key(name)}{sep}{t}")
    return "\n".join(out) + "\n"


def r_ini(spec):
    out = []
    if "head" in spec:
        out += ["; " + ln if spec.get("style") == "messy" else "# " + ln for ln in spec["head"].split("\n")] + [""]
    sec = None
    for k, e in enumerate(split_ini(spec)):
        if e["id"][0] != sec:
            sec = e["id"][0]
            if out and spec.get("style") == "messy":
                out.append("")
            out.append(f"[{sec}]")
        if "mid" in spec and k == 1:
            out += ["", "# " + spec["mid"], ""]
        if "comment" in e:
            out += ["# " + ln for ln in e["comment"].split("\n")]
        t, v, name = _val(e), e["var"], e["id"][1]
        t = t.replace("; c", " c")
        if v == "cont":
            t += "\n  second line"
        elif v == "punct":
            t += " = x : y %s"
        out.append(f"{name}={t}" if spec.get("style") != "messy" else f"{name} = {t}")
    return "\n".join(out) + "\n"


def r_dtd(spec):
    out = []
    if "head" in spec:
        out += ["<!-- " + spec["head"] + " -->", ""]
    for k, e in enumerate(spec["entries"]):
        if "mid" in spec and k == 1:
            out += ["", "<!-- " + spec["mid"] + " -->", ""]
        if "comment" in e:
            out.append("<!-- " + e["comment"] + " -->")
        t, v, name = _val(e), e["var"], e["id"][0]
        q = '"'
        if v == "apos":
            t, q = t + ' say "hi"', "'"
        elif v == "entity":
            t += " &brandShortName; &amp; &#37;"
        elif v == "multi":
            t += "\n   second line"
        elif v == "quoteent":
            t += " &quot;q&quot; &apos;"
        sp = "  " if spec.get("style") == "messy" else " "
        out.append(f"<!ENTITY{sp}{name}{sp}{q}{t}{q}>")
    return "\n".join(out) + "\n"


def r_inc(spec):
    out = []
    if "head" in spec:
        out += ["# " + ln for ln in spec["head"].split("\n")] + [""]
    if spec.get("style") == "messy":
        out += ["#filter emptyLines", ""]
    for k, e in enumerate(spec["entries"]):
        if "mid" in spec and k == 1:
            out += ["", "# " + spec["mid"], ""]
        if "comment" in e:
            out += ["# " + ln for ln in e["comment"].split("\n")]
        t, v, name = _val(e), e["var"], e["id"][0]
        if v == "punct":
            t += " <em>x</em> & \"q\" #y"
        out.append(f"#define {name} {t}")
    if spec.get("style") == "messy":
        out += ["", "#unfilter emptyLines"]
    return "\n".join(out) + "\n"


def _po(s):
    s = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
    return '"' + s + '"'


def r_gettext(spec):
    out = []
    if "head" in spec:
        out += ["# " + ln for ln in spec["head"].split("\n")]
    np = spec.get("nplurals", 2)
    out += ['msgid ""', 'msgstr ""', '"Content-Type: text/plain; charset=UTF-8\\n"']
    ph = spec.get("plural_header", np)
    if ph is not None:
        out.append(f'"Plural-Forms: nplurals={ph}; plural=(n != 1);\\n"')
    out.append("")
    for e in spec["entries"]:
        if "comment" in e:
            out += ["#. " + ln for ln in e["comment"].split("\n")]
        t, v = _val(e), e["var"]
        if v == "flags":
            out += ["#: src/a.c:12 src/b.c:3", "#, c-format"]
        if len(e["id"]) == 2:
            out.append(f"msgctxt {_po(e['id'][1])}")
        out.append(f"msgid {_po(e['id'][0])}")
        if v == "multi":
            t += "\nline two\n"
        elif v == "quote":
            t += ' "q" \\ back'
        if v == "plural":
            out.append(f"msgid_plural {_po(e['id'][0] + 's')}")
            for i in range(np):
                out.append(f"msgstr[{i}] {_po(t + ' ' + str(i))}")
        elif spec.get("style") == "messy":
            out += ['msgstr ""', _po(t)]
        else:
            out.append(f"msgstr {_po(t)}")
        out.append("")
    return "\n".join(out) + "\n"


def r_plain_json(spec):
    root = {}
    for e in spec["entries"]:
        t = _val(e)
        if e["var"] == "multi":
            t += "\nline\ttwo"
        elif e["var"] == "quote":
            t += ' "q" \\ /'
        p = root
        for part in e["id"][:-1]:
            p = p.setdefault(part, {})
        p[e["id"][-1]] = t
    if spec.get("style") == "messy":
        return json.dumps(root, indent=4, ensure_ascii=True) + "\n"
    return json.dumps(root, indent=2, ensure_ascii=False) + "\n"


def r_webext(spec):
    root = {}
    for e in spec["entries"]:
        t, v = _val(e), e["var"]
        m = {}
        if v == "ph":
            t += " $USER$ and $USER$"
            m["placeholders"] = {"user": {"content": "$1", "example": "Jo"}}
        elif v == "ph2":
            t += " $b_x$ then $A1$"
            m["placeholders"] = {"a1": {"content": "fixed"}, "b_x": {"content": "$2"}}
        elif v == "arg":
            t += " $1 of $2"
        elif v == "dollar":
            t += " $$5 $$$"
        elif v == "quote":
            t += ' "q" \\'
        m = {"message": t, **m}
        if "comment" in e:
            m["description"] = e["comment"]
        root[e["id"][0]] = m
    if spec.get("style") == "messy":
        lines = json.dumps(root, indent=4, ensure_ascii=False).split("\n")
        return "\n".join([lines[0], "    // a line comment", *lines[1:]]) + "\n"
    return json.dumps(root, indent=2, ensure_ascii=False) + "\n"


def r_android(spec):
    out = ['<?xml version="1.0" encoding="utf-8"?>']
    if "head" in spec:
        out.append("<!-- " + spec["head"] + " -->")
    out.append('<resources xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2">')
    ind = "\t" if spec.get("style") == "messy" else "  "
    for k, e in enumerate(spec["entries"]):
        if "mid" in spec and k == 1:
            out += ["", ind + "<!-- " + spec["mid"] + " -->", ""]
        if "comment" in e:
            out.append(ind + "<!-- " + e["comment"] + " -->")
        t, v, name = xesc(_val(e)), e["var"], e["id"][0]
        if v == "plurals":
            out += [f'{ind}<plurals name="{name}">', f'{ind}{ind}<item quantity="one">{t} one</item>',
                    f'{ind}{ind}<item quantity="other">{t} %1$d</item>', f"{ind}</plurals>"]
            continue
        if v == "array":
            out += [f'{ind}<string-array name="{name}">']
            out += [f"{ind}{ind}<item>{t} {i}</item>" for i in range(e.get("n", 2))]
            out += [f"{ind}</string-array>"]
            continue
        if v == "html":
            t += " <b>bold</b> x"
        elif v == "ph":
            t += " %1$s and %2$d%%"
        elif v == "quote":
            t += " It\\'s \\\"q\\\""
        elif v == "entity":
            t += " &amp; &lt;x&gt;"
        elif v == "xg":
            t += ' <xliff:g id="u" example="Bob">%1$s</xliff:g>'
        out.append(f'{ind}<string name="{name}">{t}</string>')
    out.append("</resources>")
    return "\n".join(out) + "\n"


def r_xliff(spec):
    out = ['<?xml version="1.0" encoding="utf-8"?>',
           '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">']
    if "head" in spec:
        out.append("<!-- " + spec["head"] + " -->")
    ind = " " if spec.get("style") == "messy" else "  "
    cur = None
    tl = ' target-language="fr"' if spec.get("bilingual", True) else ""
    for e in spec["entries"]:
        if e["id"][0] != cur:
            if cur is not None:
                out += [ind * 2 + "</body>", ind + "</file>"]
            cur = e["id"][0]
            out += [f'{ind}<file original="{xesc(cur, {'"': '&quot;'})}" source-language="en"{tl} datatype="plaintext">', ind * 2 + "<body>"]
        t, v = xesc(_val(e)), e["var"]
        if v == "inline":
            t += ' <x id="1"/> y <g id="2">z</g>'
        elif v == "quote":
            t += ' "q" &amp; \''
        st = ' state="translated"' if v == "state" else ""
        out.append(f'{ind*3}<trans-unit id="{xesc(e["id"][1], {'"': '&quot;'})}">')
        src = t if not spec.get("bilingual", True) else "Source " + xesc(e["id"][1])
        out.append(f"{ind*4}<source>{src}</source>")
        if spec.get("bilingual", True) and v != "notarget":
            out.append(f"{ind*4}<target{st}>{t}</target>")
        if "comment" in e:
            out.append(f"{ind*4}<note>{xesc(e['comment'])}</note>")
        out.append(f"{ind*3}</trans-unit>")
    if cur is not None:
        out += [ind * 2 + "</body>", ind + "</file>"]
    out.append("</xliff>")
    return "\n".join(out) + "\n"


def status(fmt, data: bytes) -> str:
    """What `fix` makes of broken content: "fail" (an error) or "skip" (not for it)."""
    try:
        data.decode("utf-8")
    except UnicodeDecodeError:
        return "skip"
    if fmt in ("plain_json", "webext") and b"MISSING" not in data:
        return "skip"  # no JSON localization format is recognised
    return "fail"


def broken(rng, fmt) -> bytes:
    """Content the format's parser must refuse (or that is not text at all)."""
    k = rng.random()
    if k < 0.25 and fmt not in ("android", "xliff"):
        return b"\xff\xfe\x00bad \xc3\x28 bytes\n"
    opts = {
        "fluent": [],
        "properties": [],
        "ini": ["key=value before any section\n", "[unclosed\nfoo\n"],
        "dtd": ["<!ENTITY foo 'unterminated>\n", "<!ENTITY a \"x\">\nstray text\n"],
        "inc": ["#define ok value\nnot a directive\n"],
        "gettext": ['msgid "a"\nmsgstr "b"\ngarbage here\n'],
        "plain_json": ['{"a": "b",,}\n', '{"a": "b"\n', '{"a": 1}\n'],
        "webext": ['{"a": {"message": "x"\n', '{"a": {"message": "$MISSING$"}}\n'],
        "android": ["<resources><string name='a'>x</resources>\n", "<resources><bogus/></resources>\n"],
        "xliff": ["<xliff version='1.2' xmlns='urn:oasis:names:tc:xliff:document:1.2'><file>\n",
                  "<xliff version='1.2'"],
    }[fmt]
    if not opts:
        return b"\x80\x81 not utf-8 \xfe\n"
    return rng.choice(opts).encode()


# can be parsed, but not be written as UTF-8
SURROGATE = {
    "webext": '{"a": {"message": "x \\ud83d y"}}\n',
    "plain_json": '{"a": "x \\ud83d y"}\n',
    "properties": "a   =   x \\ud83d y\n",
    "android": '<resources><string name="a">x \\ud83d y</string></resources>\n',
}

UNSUPPORTED = {
    "notes.txt": b"just some notes\n",
    "image.png": b"\x89PNG\r\n\x1a\n\x00\x00\xff",
    "readme.md": b"# Readme\n",
    "data.json": b'{"a": 1, "b": [1, 2]}\n',
    "script.py": b"print('x')\n",
    "other.xml": b"<other><a/></other>\n",
}
