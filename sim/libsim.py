"""Library calls as simulated tasks: fresh forked processes, line-level schedules and faults."""
from __future__ import annotations

import copy
import dataclasses
import dis
import enum
import io
import json
import os
import re
import signal
import sys
import threading
import traceback

from . import boot, locks  # noqa: F401
from .vfs import HarnessError

import fluent.syntax.ast as ftl
import polib
from fluent.syntax import FluentParser

from moz.l10n.formats import Format, detect_format
from moz.l10n.formats.android import android_parse, android_parse_message, android_serialize_message
from moz.l10n.formats.fluent import (
    fluent_astify,
    fluent_astify_entry,
    fluent_astify_message,
    fluent_parse,
    fluent_parse_entry,
    fluent_parse_message,
    fluent_serialize,
    fluent_serialize_entry,
    fluent_serialize_message,
)
from moz.l10n.formats.gettext import gettext_parse, gettext_serialize
from moz.l10n.formats.ini import ini_parse
from moz.l10n.formats.mf2 import mf2_from_json, mf2_parse_message, mf2_serialize_message, mf2_serialize_pattern, mf2_to_json, mf2_validate_message
from moz.l10n.formats.properties import properties_parse, properties_parse_message, properties_serialize, properties_serialize_message
from moz.l10n.formats.webext import webext_parse_message, webext_serialize, webext_serialize_message
from moz.l10n.formats.xliff import xliff_is_xcode, xliff_parse_message, xliff_serialize_message
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, SelectMessage
from moz.l10n.paths import get_android_locale, parse_android_locale
from moz.l10n.resource import add_entries, l10n_equal, parse_resource, serialize_resource

DIRS = tuple(os.path.dirname(p) + os.sep for p in (boot.moz.l10n.__file__, ftl.__file__)) + (polib.__file__,)


# -- showing values ---------------------------------------------------------------------


def dump(x):
    """A JSON-able picture of any value: types, order and all."""
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, enum.Enum):
        return f"<{type(x).__name__}.{x.name}>"
    if isinstance(x, str):
        return x if type(x) is str else [f"<{type(x).__name__}>", str(x)]
    if isinstance(x, bytes):
        return ["<bytes>", x.decode("latin-1")]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [type(x).__name__, *[dump(getattr(x, f.name)) for f in dataclasses.fields(x)]]
    if isinstance(x, dict):
        return ["{}", *[[dump(k), dump(v)] for k, v in x.items()]]
    if isinstance(x, list):
        return [dump(v) for v in x]
    if isinstance(x, tuple):
        return ["()", *[dump(v) for v in x]]
    if isinstance(x, (set, frozenset)):
        return ["set", *sorted(json.dumps(dump(v)) for v in x)]
    if isinstance(x, ftl.BaseNode):
        return ["ftl", dump(x.to_json())]
    if isinstance(x, BaseException):
        return ["!", type(x).__name__, re.sub(r"0x[0-9a-f]{6,}", "0x", str(x))]
    return ["?", type(x).__name__]


JUNK = "\u2620junk"


def corrupt(x, seen=None):
    """Change every mutable part of a returned value."""
    seen = set() if seen is None else seen
    if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, enum.Enum)):
        return
    seen.add(id(x))
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            corrupt(v, seen)
            try:
                if isinstance(v, str):
                    setattr(x, f.name, v + JUNK)
                elif isinstance(v, tuple):
                    setattr(x, f.name, (*v, JUNK))
            except (AttributeError, TypeError, ValueError):
                pass
    elif isinstance(x, dict):
        for v in list(x.values()):
            corrupt(v, seen)
        for k, v in list(x.items()):
            if isinstance(v, str):
                x[k] = v + JUNK
        try:
            x[JUNK] = JUNK
        except TypeError:
            pass
    elif isinstance(x, list):
        for v in x:
            corrupt(v, seen)
        for i, v in enumerate(x):
            if isinstance(v, str):
                x[i] = v + JUNK
        x.append(JUNK)
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            corrupt(v, seen)
    elif isinstance(x, ftl.BaseNode):
        for k, v in list(vars(x).items()):
            corrupt(v, seen)
            if isinstance(v, str):
                setattr(x, k, v + JUNK)


# -- the pool of arguments and the calls on it ---------------------------------------------

DIRTY = ["ws", "ws", "split", "meta", "dup", "str", "section", "chars", "comment", "twin", "standalone"]


def patterns(v):
    return [v.pattern] if isinstance(v, PatternMessage) else list(v.variants.values()) if isinstance(v, SelectMessage) else []


def dirty(res, kind, n):
    """Changes which a caller may make to a resource it parsed, so that it is no longer as a parser would leave it."""
    es = [e for s in res.sections for e in s.entries if isinstance(e, Entry)]
    e = es[n % len(es)] if es else None
    sec = res.sections[n % len(res.sections)] if res.sections else None
    if kind == "ws":
        for x in (res, sec, e)[n % 3:]:
            if x is not None:
                x.comment = f"{x.comment}\n " if n % 2 else f"\n  {x.comment} \n\n"
    elif kind == "split" and e:
        for pat in patterns(e.value):
            for i in range(len(pat) - 1, -1, -1):
                if isinstance(pat[i], str):
                    k = len(pat[i]) // 2
                    pat[i:i + 1] = [pat[i][:k], "", pat[i][k:]]
            pat.append("")
    elif kind == "chars" and e:
        for pat in patterns(e.value)[:1 + n % 2]:
            pat.append(" \u00e9\t\\\u200b\U0001f600{'\"%< ")
    elif kind == "meta":
        (e if e and n % 3 else sec if sec and n % 2 else res).meta.append(Metadata("flag" if n % 2 else "note", f"value {n}"))
    elif kind == "dup" and e:
        sec.entries.append(copy.deepcopy(e))
    elif kind == "str" and e:
        e.value = f"string value {n}"
    elif kind == "section" and sec:
        tail = copy.copy(sec)
        h = len(sec.entries) // 2
        tail.entries = sec.entries[h:]
        tail.meta = list(sec.meta)
        sec.entries = sec.entries[:h]
        res.sections.append(tail)
    elif kind == "comment" and e:
        e.comment = f"line {n}\n\n# line -- two"
    elif kind == "twin" and e:
        e.value = es[0].value  # shared by two entries
        e.meta = es[0].meta
    elif kind == "standalone" and sec:
        sec.entries.insert(n % (len(sec.entries) + 1), Comment(f"standalone {n}"))



class Pool:
    """Arguments shared by the calls of a scenario, built on first use."""

    def __init__(self, sc):
        self.sc = sc
        self.res = {}
        self.msg = {}
        self.misc = {}

    def resource(self, i):
        if i not in self.res:
            r = self.sc["res"][i % len(self.sc["res"])]
            res = parse_resource(r["name"], r["text"])
            for kind, n in r.get("dirty", ()):
                dirty(res, kind, n)
            self.res[i] = res
        return self.res[i]

    def message(self, i):
        """Message number i of the pool: of MESSAGES-like items or of the resources."""
        if i not in self.msg:
            m = self.sc["msgs"][i % len(self.sc["msgs"])]
            if m[0] == "@":
                e = self.entries(m[1])
                e = e[m[2] % len(e)]
                vs = [e.value, *e.properties.values()]
                self.msg[i] = vs[m[2] % len(vs)]
            else:
                self.msg[i] = parse_message(Format[m[0]], m[1], **copy.deepcopy(m[2]))
        return self.msg[i]

    def other(self, key, make):
        if key not in self.misc:
            self.misc[key] = make()
        return self.misc[key]

    def entries(self, i):
        return [e for s in self.resource(i).sections for e in s.entries if isinstance(e, Entry)]


def prepare(pool, c):
    """(function, arguments) of a call; raises if its arguments cannot be built."""
    op = c["op"]
    kw = c.get("kw") or {}
    if op == "parse":
        r = pool.sc["res"][c["i"] % len(pool.sc["res"])]
        k = pool.other(("kw", json.dumps(kw, sort_keys=True)), lambda: copy.deepcopy(kw))
        src = r["text"].encode("utf-8") if c.get("bytes") else r["text"]
        inp = None if c.get("as") == "none" else Format[r["fmt"]] if c.get("as") == "format" else r["name"]
        return (lambda: parse_resource(inp, src, **k)), [k]
    if op == "serialize":
        res = pool.resource(c["i"])
        k = pool.other(("kw", json.dumps(kw, sort_keys=True)), lambda: copy.deepcopy(kw))
        if c.get("fn"):
            return (lambda: "".join(stream(res, c))), [res]
        if c.get("format"):
            k = {**k, "format": Format[c["format"]]}
        return (lambda: "".join(serialize_resource(res, **k))), [res, k]
    if op == "equal":
        a, b = pool.resource(c["i"]), pool.resource(c["j"])
        return (lambda: l10n_equal(a, b)), [a, b]
    if op == "add":
        t, s = copy.deepcopy(pool.resource(c["i"])), pool.resource(c["j"])

        def add():
            n = add_entries(t, s, use_source_entries=bool(c.get("use")))
            return n, dump(t)

        return add, [s]
    if op == "detect":
        r = pool.sc["res"][c["i"] % len(pool.sc["res"])]
        return (lambda: detect_format(None if c.get("as") == "none" else r["name"], r["text"])), []
    if op == "parse_message":
        m = pool.sc["msgs"][c["i"] % len(pool.sc["msgs"])]
        k = pool.other(("m", c["i"]), lambda: copy.deepcopy(m[2]))
        return (lambda: parse_message(Format[m[0]], m[1], **k)), [k]
    if op == "serialize_message":
        m = pool.message(c["i"])
        f = Format[c["format"]]
        if f == Format.webext:
            return (lambda: webext_serialize_message(m)), [m]
        return (lambda: serialize_message(f, m, **kw)), [m]
    if op == "to_json":
        m = pool.message(c["i"])
        return (lambda: message_to_json(m)), [m]
    if op == "from_json":
        j = pool.other(("json", c["i"]), lambda: copy.deepcopy(message_to_json(pool.message(c["i"]))))
        return (lambda: message_from_json(j)), [j]
    if op == "mf2_to_json":
        m = pool.message(c["i"])
        return (lambda: mf2_to_json(m)), [m]
    if op == "mf2_from_json":
        j = pool.other(("mf2json", c["i"]), lambda: copy.deepcopy(mf2_to_json(pool.message(c["i"]))))
        return (lambda: mf2_from_json(j)), [j]
    if op == "validate":  # documented to reorder the declarations of its argument
        m = copy.deepcopy(pool.message(c["i"]))
        return (lambda: (mf2_validate_message(m), dump(m))), []
    if op == "entry_json":
        es = pool.entries(c["i"])
        e = es[c["k"] % len(es)]
        return (lambda: entry_to_json(e)), [e]
    if op == "entry_from_json":
        def mk():
            es = pool.entries(c["i"])
            return copy.deepcopy(entry_to_json(es[c["k"] % len(es)]))

        kj = pool.other(("ejson", c["i"], c["k"]), mk)
        return (lambda: entry_from_json(*kj)), [kj]
    if op == "astify":
        res = pool.resource(c["i"])
        return (lambda: fluent_astify(res, **kw)), [res]
    if op == "fluent_entry":
        es = pool.entries(c["i"])
        e = es[c["k"] % len(es)]
        return (lambda: fluent_serialize_entry(e)), [e]
    if op == "fluent_parse_entry":
        def mk():
            es = pool.entries(c["i"])
            return fluent_astify_entry(es[c["k"] % len(es)])

        a = pool.other(("ast", c["i"], c["k"]), mk)
        return (lambda: fluent_parse_entry(a)), [a]
    if op == "equals":
        a, b = pool.message(c["i"]), pool.message(c["j"])
        return (lambda: (a == b, repr(a))), [a, b]
    if op == "is_empty":
        m = pool.message(c["i"])
        return (lambda: (m.is_empty(), [dump(v) for e in m.placeholders() for v in (e, list(e.variable_refs()))])), [m]
    if op == "fn":
        return FNS[c["fn"]](pool, c, c.get("flag", 0))
    raise HarnessError(f"unknown call {op}")


# format-specific functions: (pool, call, flag number) -> (function, arguments)

def text_of(pool, c):
    return pool.sc["res"][c["i"] % len(pool.sc["res"])]["text"]


def src_of(pool, c):
    return pool.sc["msgs"][c["i"] % len(pool.sc["msgs"])]


def shared_ast(pool, c):
    return pool.other(("resast", c["i"]), lambda: FluentParser(with_spans=False).parse(text_of(pool, c)))


def meta_str(f):
    return f"@{f.key} {f.value}" if len(f.key) % 2 else None


def _res(make):
    def fn(pool, c, flag):
        r = pool.resource(c["i"])
        return (lambda: make(r, flag)), [r]
    return fn


def _msg(make):
    def fn(pool, c, flag):
        m = pool.message(c["i"])
        return (lambda: make(m, flag)), [m]
    return fn


def _text(make):
    return lambda pool, c, flag: ((lambda: make(text_of(pool, c), flag)), [])


def _src(make):
    return lambda pool, c, flag: ((lambda: make(src_of(pool, c)[1], flag)), [])


def _ast(make):
    def fn(pool, c, flag):
        a = shared_ast(pool, c)
        return (lambda: make(a, flag)), [a]
    return fn


def _entry_ast(make):
    def fn(pool, c, flag):
        es = [e for e in shared_ast(pool, c).body if isinstance(e, (ftl.Message, ftl.Term))]
        e = es[c.get("k", 0) % len(es)]
        return (lambda: make(e, flag)), [e]
    return fn


def _webext(pool, c, flag):
    ph = pool.other(("ph", flag % 3), lambda: copy.deepcopy(PLACEHOLDERS[flag % 3]))
    m = src_of(pool, c)
    src = WEBEXT_SRC[c["i"] % len(WEBEXT_SRC)] if m[0] != "webext" else m[1]
    return (lambda: webext_parse_message(src, ph)), [ph]


PLACEHOLDERS = [
    {"Name": {"content": "$1", "example": "Bob"}, "UNKNOWN": {"content": "$2"}, "unused": {"content": "x"}, "ARG1": {"content": "text", "example": "T"}},
    {"NAME": {"content": "$3"}, "unknown": {"content": "lit $1"}, "Missing": {"content": "$9"}},
    {"0at@x": {"content": "$1"}, "name": {"content": "$1"}, "NaMe2": {"content": "two"}},
]
WEBEXT_SRC = ["Hi $NAME$, $name$ $1", "$unknown$ $$ $Name$ $UNKNOWN$", "$0at@x$ and $NAME2$", "$Missing$ $MISSING$"]
ENCODINGS = ["iso-8859-1", "utf-8", "utf-16"]
STREAMS = {
    "properties": lambda r, f: properties_serialize(r, ENCODINGS[f % 3], (lambda m: repr(m)) if f % 5 == 4 else None, trim_comments=f % 7 == 6),
    "fluent": lambda r, f: fluent_serialize(r, escape_syntax=f % 2 == 0, serialize_metadata=meta_str if f % 3 else None, trim_comments=f % 5 == 4),
    "gettext": lambda r, f: gettext_serialize(r, plurals=[None, ("one", "other")][f % 2], wrapwidth=[200, 20, 78][f % 3], trim_comments=f % 5 == 4),
    "webext": lambda r, f: webext_serialize(r, f % 2 == 1),
}
FNS = {
    **{f"{k}_serialize": _res(lambda r, f, s=s: "".join(s(r, f))) for k, s in STREAMS.items()},
    "fluent_astify": _res(lambda r, f: fluent_astify(r, escape_syntax=f % 2 == 0, serialize_metadata=meta_str if f % 3 else None, trim_comments=f % 5 == 4)),
    "xliff_is_xcode": _res(lambda r, f: xliff_is_xcode(r)),
    "fluent_parse_ast": _ast(lambda a, f: fluent_parse(a)),
    "fluent_parse": _text(lambda t, f: fluent_parse(t.encode() if f % 3 == 1 else t, with_linepos=f % 2 == 0)),
    "fluent_parse_entry_ast": _entry_ast(lambda e, f: fluent_parse_entry(e)),
    "fluent_parse_entry_text": _text(lambda t, f: fluent_parse_entry(t, with_linepos=f % 2 == 0)),
    "fluent_pattern_ast": _entry_ast(lambda e, f: fluent_serialize_message(e.value)),
    "fluent_parse_message": _src(lambda t, f: fluent_parse_message(t)),
    "fluent_serialize_message": _msg(lambda m, f: fluent_serialize_message(m, escape_empty=f % 2 == 0, escape_syntax=f % 3 == 0)),
    "fluent_astify_message": _msg(lambda m, f: fluent_astify_message(m, escape_empty=f % 2 == 0, escape_syntax=f % 3 == 0)),
    "properties_serialize_message": _msg(lambda m, f: properties_serialize_message(m, ensure_ascii=f % 2 == 0)),
    "properties_parse": _text(lambda t, f: properties_parse(t.encode(ENCODINGS[f % 3], "replace"), ENCODINGS[f % 3], parse_message=(lambda x: PatternMessage([x, "!"])) if f % 2 else None,
                                                            printf_placeholders=f % 4 == 0)),
    "properties_parse_message": _src(lambda t, f: properties_parse_message(t, printf_placeholders=f % 2 == 0)),
    "android_parse": _text(lambda t, f: android_parse(t.encode(), ascii_spaces=f % 2 == 0, literal_quotes=f % 3 == 0)),
    "android_parse_message": _src(lambda t, f: android_parse_message(t, ascii_spaces=f % 2 == 0, literal_quotes=f % 3 == 0)),
    "android_serialize_message": _msg(lambda m, f: android_serialize_message(m, allow_cdata=f % 2 == 0)),
    "xliff_parse_message": _src(lambda t, f: xliff_parse_message(t, is_xcode=f % 2 == 0)),
    "xliff_serialize_message": _msg(lambda m, f: xliff_serialize_message(m)),
    "gettext_parse": _text(lambda t, f: gettext_parse(t, plurals=[None, ("one", "other"), ["a", "b", "c"]][f % 3], skip_obsolete=f % 2 == 0)),
    "ini_parse_file": _text(lambda t, f: ini_parse(io.StringIO(t))),
    "mf2_serialize_message": _msg(lambda m, f: mf2_serialize_message(m)),
    "mf2_serialize_pattern": _msg(lambda m, f: "".join(x for p in patterns(m) for x in mf2_serialize_pattern(p))),
    "webext_parse_message": _webext,
    "normalize": _msg(lambda m, f: copy.deepcopy(m).normalize()),
    "android_locale": lambda pool, c, f: ((lambda: [(get_android_locale(x), parse_android_locale(get_android_locale(x))) for x in ("he", "en-GB", "sr-Latn", "id", "iw")]), []),
    "selectors": _msg(lambda m, f: copy.deepcopy(m.selector_expressions())),
}


def stream(res, s):
    """A serializer stream over a resource."""
    if s.get("fn"):
        return iter(STREAMS[s["fn"]](res, s.get("flag", 0)))
    kw = dict(s["kw"])
    if s.get("format"):
        kw["format"] = Format[s["format"]]
    return iter(serialize_resource(res, **kw))


def call(pool, c, hook=None):
    """Result of one call, as data; also the live value and whether the arguments changed."""
    try:
        fn, args = prepare(pool, c)
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001  the arguments of this call cannot be built
        return {"r": ["unprepared", type(e).__name__]}, None, None
    before = [json.dumps(dump(a)) for a in args]
    value = None
    try:
        if hook is not None:
            with hook:
                value = fn()
        else:
            value = fn()
        r = ["=", dump(value)]
    except HarnessError:
        raise
    except BaseException as e:  # noqa: BLE001
        r = dump(e)
        del e
    after = [json.dumps(dump(a)) for a in args]
    changed = next((f"argument {i} was {b}, became {a}" for i, (b, a) in enumerate(zip(before, after)) if a != b), None)
    return {"r": r}, value, changed


# -- forked runs -----------------------------------------------------------------------------


def fork_run(fn, timeout=60):
    """Run fn() in a fork of this process, which has never called the library; its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            try:
                out = {"ok": fn()}
            except BaseException as e:  # noqa: BLE001
                out = {"err": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
            data = json.dumps(out).encode("ascii")
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("a forked run died without an answer (time limit or crash)")
    out = json.loads(data)
    if "err" in out:
        raise HarnessError(out["err"])
    return out["ok"]


# -- exceptions at chosen source lines ----------------------------------------------------------

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError, "TimeoutError": TimeoutError}


class Inject:
    """Counts the lines of library code executed; raises at the n-th one."""

    def __init__(self, n=None, exc="KeyboardInterrupt"):
        self.n = n
        self.exc = exc
        self.count = 0
        self.where = None
        self.on = False
        self.hot = [[], []]  # counts at weak and strong hot spots

    def __enter__(self):
        self.on = True
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        self.on = False
        sys.settrace(None)

    def glob(self, frame, event, arg):
        if not self.on or not frame.f_code.co_filename.startswith(DIRS) or frame.f_code.co_name == "<module>":
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.on:
            self.count += 1
            if self.n is None:
                n = hot_spots(frame).get(frame.f_lineno)
                if n:
                    self.hot[n - 1].append(self.count)
            if self.count == self.n:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                self.on = False
                raise EXC[self.exc]("injected")
        return self.local


# -- several threads, one running at a time ------------------------------------------------------

_HOT = {}  # code object -> {line or -offset: 1 or 2}


def hot_spots(frame):
    """Lines and byte codes of a function that may use what threads share: 2 for module-level state, 1 for attributes and items."""
    code = frame.f_code
    if code not in _HOT:
        out = {}
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            line = ins.positions.lineno if ins.positions and ins.positions.lineno else line
            n = 0
            if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                n = 2
            elif ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR"):
                n = 1
            elif ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                v = frame.f_globals.get(ins.argval)
                if isinstance(v, (dict, list, set, bytearray)) or type(v).__module__.startswith(("moz.", "collections", "fluent.", "polib")) and not isinstance(v, (type, enum.Enum)):
                    n = 2
            if n:
                out[line] = max(n, out.get(line, 0))
                out[-ins.offset] = n
        _HOT[code] = out
    return _HOT[code]


class Threads:
    """Runs callables in threads that switch only at lines (or byte codes) of library code, as scheduled."""

    def __init__(self, fns, schedule, opcodes=False, hot=False):
        self.fns = fns
        self.hot = [[[], []] for _ in fns] if hot else None  # per thread, its points at weak and strong hot spots
        self.sched = {k: p for k, p in schedule}
        self.opcodes = opcodes
        self.k = 0
        self.cur = 0
        self.switches = 0
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.ids = {}
        self.out = [None] * n
        self.counts = [0] * n
        self.main = threading.Semaphore(0)
        self.error = None

    def me(self):
        return self.ids.get(threading.get_ident())

    def switch(self, p, me):
        self.cur = p
        self.switches += 1
        self.sem[p].release()
        self.sem[me].acquire()

    def point(self):
        me = self.cur
        k = self.k
        self.k += 1
        self.counts[me] += 1
        p = self.sched.get(k)
        if p is not None and p != me and p < len(self.fns) and not self.done[p]:
            self.switch(p, me)

    def blocked(self):
        """The running thread waits for a lock: somebody else goes on."""
        me = self.cur
        rest = [j for j in range(len(self.fns)) if not self.done[j] and j != me]
        if not rest:
            raise RuntimeError("deadlock")
        self.spins = getattr(self, "spins", 0) + 1
        if self.spins > 20000:
            raise RuntimeError("deadlock")
        nxt = min(rest, key=lambda j: (j <= me, j))
        self.switch(nxt, me)

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(DIRS) or frame.f_code.co_name == "<module>":
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode" or event == "line" and not self.opcodes:
            if self.hot:
                n = hot_spots(frame).get(-frame.f_lasti if self.opcodes else frame.f_lineno)
                if n:
                    self.hot[self.cur][n - 1].append(self.counts[self.cur])
            self.point()
        return self.local

    def body(self, i):
        self.sem[i].acquire()
        self.ids[threading.get_ident()] = i
        try:
            sys.settrace(self.glob)
            try:
                self.out[i] = self.fns[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            self.error = self.error or f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
        self.done[i] = True
        rest = [j for j in range(len(self.fns)) if not self.done[j]]
        if rest:
            self.cur = rest[0]
            self.sem[rest[0]].release()
        else:
            self.main.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        locks.current = self
        try:
            for t in ts:
                t.start()
            self.sem[0].release()
            self.main.acquire()
            for t in ts:
                t.join()
        finally:
            locks.current = None
        if self.error:
            raise HarnessError(self.error)
        return self.out


__all__ = ["Resource"]
