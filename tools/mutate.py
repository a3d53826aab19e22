"""tools/mutate.py OUT.jsonl FILE[:CHECK,CHECK...]...: plant small edits everywhere, keep those that
pass the tests, and list those that the checks miss. FILE is below python/moz/l10n. Resumable.

Options: VP_FRAC (part of the quick seeds, 0.3), VP_JOBS (8), VP_SAMPLE (part of the survivors, 1),
VP_PICK (part of the edits, 1), VP_REDO=1 (only what was missed before). They are tried in a fixed random order.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def rep(n, new, what):
        s, e = span(n)
        new_src = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(new_src)
        except SyntaxError:
            return
        if new_src != src:
            out.append((n.lineno, f"{what}: {text(n)[:70]!r} -> {new[:70]!r}", new_src))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            for s in n.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    doc.add(s)
    ann = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                ann.update(ast.walk(a))
    for n in ast.walk(tree):
        # options, logging and messages
        for a in getattr(n, "decorator_list", []):
            ann.update(ast.walk(a))
        if isinstance(n, ast.Call) and re.match(r"log\.|logging|set_log_level|click\.echo|ValueError|plural\(|SystemExit|TypeError|isinstance", text(n)):
            ann.update(ast.walk(n))
        if isinstance(n, ast.Expr) and re.match(r"log\.|logging|set_log_level", text(n)):
            ann.add(n)
        if isinstance(n, ast.If) and re.match("__name__|TYPE_CHECKING", text(n.test)):
            ann.update(ast.walk(n))
        if isinstance(n, ast.Assign) and re.match("log = |__all__", text(n)) or isinstance(n, ast.Assert):
            ann.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in ann:
            continue
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + op.join("(" + text(v) + ")" for v in rest) + ")", "drop operand")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = SWAP.get(type(n.ops[0]))
            if o and type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                rep(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "compare")
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, "(not (" + text(n.test) + "))", "negate")
            if isinstance(n, ast.If):
                rep(n.test, "False", "never")
                rep(n.test, "True", "always")
        elif isinstance(n, ast.IfExp):
            rep(n, "(" + text(n.body) + ")", "always")
            rep(n, "(" + text(n.orelse) + ")", "never")
        elif isinstance(n, ast.Expr) and n not in doc and not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            rep(n, "pass", "delete")
        elif isinstance(n, ast.Expr) and n not in doc:
            rep(n, "if 0: " + text(n), "delete")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            rep(n, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break, ast.Raise)):
            rep(n, "pass", "delete")
            if isinstance(n, ast.Continue):
                rep(n, "break", "break")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    args = [text(a) for a in n.args] + [f"{x.arg}={text(x.value)}" if x.arg else "**" + text(x.value) for x in n.keywords if x is not k]
                    rep(n, f"{text(n.func)}({', '.join(args)})", "drop " + k.arg)
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                rep(n, "(" + text(n.args[0]) + ")", "unwrap")
            if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
                rep(n, text(n.func.value), "drop method")
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip", "lower", "sort", "copy", "replace", "format_map"):
                rep(n, text(n.func.value), "drop method")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), "constant")
            elif type(n.value) is int:
                rep(n, str(n.value + 1), "constant")
                if n.value > 0:
                    rep(n, str(n.value - 1), "constant")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(" + text(n.operand) + ")", "not")
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                rest = [text(v) for j, v in enumerate(n.type.elts) if j != i]
                rep(n.type, rest[0] if len(rest) == 1 else "(" + ", ".join(rest) + ")", "except")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, "Exception", "except")
            rep(n.type, "()", "except")
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1:
            pass
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", "filter")
    seen = set()
    for ln, what, s in out:
        if s not in seen:
            seen.add(s)
            yield ln, what, s


def main(outfile, specs):
    frac = float(os.environ.get("VP_FRAC", "0.3"))
    jobs = int(os.environ.get("VP_JOBS", "8"))
    sample = float(os.environ.get("VP_SAMPLE", "1"))
    done = {}
    redo = os.environ.get("VP_REDO")
    if os.path.exists(outfile):
        for ln in open(outfile):
            d = json.loads(ln)
            done[d["file"], d["line"], d["what"]] = d["by"]
    scratch = tempfile.mkdtemp(prefix="mutate.")
    workers = Queue()
    for i in range(jobs):
        shutil.copytree("/repo", f"{scratch}/{i}/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        workers.put(f"{scratch}/{i}/repo")
    sys.path.insert(0, HERE)
    sizes = {}
    for i in set(c for s in specs for c in s.partition(":")[2].split(",")):
        o = subprocess.run([PY, "-c", f"import sys; sys.path.insert(0, {HERE!r}); from sim import boot; from checks import load; print(load({i!r}).quick_seeds)"], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        sizes[i] = int(o.stdout)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    log = open(outfile, "a", buffering=1)

    def one(f, ln, what, new, checks):
        repo = workers.get()
        try:
            p = f"{repo}/python/moz/l10n/{f}"
            old = open(p).read()
            open(p, "w").write(new)
            rec = {"file": f, "line": ln, "what": what}
            try:
                try:
                    x = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--basetemp", repo + "/../t", "tests"], cwd=repo + "/python", env=dict(env, PYTHONPATH=repo + "/python"), capture_output=True, text=True, timeout=60)
                    killed = x.returncode != 0
                except subprocess.TimeoutExpired:
                    killed = True
                if killed:
                    rec["by"] = "tests"
                elif random.random() >= sample:
                    rec["by"] = "unsampled"
                else:
                    rec["by"] = None
                    for c in checks:
                        try:
                            x = subprocess.run(["python3", HERE + "/run.py", "check", c, "--jobs", "1", "--seeds", str(max(40, int(sizes[c] * frac)))], env=dict(env, VP_REPO=repo, VP_NOEVIDENCE="1"), capture_output=True, text=True, timeout=900)
                            if x.returncode != 0:
                                rec["by"] = c + ("" if x.returncode == 1 else f" exit {x.returncode}")
                                break
                        except subprocess.TimeoutExpired:
                            rec["by"] = c + " timeout"
                            break
            finally:
                open(p, "w").write(old)
            log.write(json.dumps(rec) + "\n")
            if rec["by"] is None:
                print(f, ln, what, flush=True)
        finally:
            workers.put(repo)

    try:
        with ThreadPoolExecutor(jobs) as ex:
            todo, pick = [], float(os.environ.get("VP_PICK", "1"))
            for s in specs:
                f, _, cs = s.partition(":")
                src = open(f"/repo/python/moz/l10n/{f}").read()
                for ln, what, new in mutants(src):
                    rank = random.Random(f"{f} {what} {new.count(chr(10))} {ln}").random()
                    if (f, ln, what) in done and done[f, ln, what] is None if redo else rank < pick and (f, ln, what) not in done:
                        todo.append((rank, (f, ln, what, new, cs.split(","))))
            todo.sort()
            futs = [ex.submit(one, *t) for _, t in todo]
            print(len(futs), "mutants", flush=True)
            for x in futs:
                x.result()
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
