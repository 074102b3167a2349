#!/usr/bin/env python3-vt
"""Mutation testing of the checks (development aid; no registered command uses it).

usage: mutate.py CHECK FILE[,FILE...] [--max N] [--cases N] [--seed S] [--names regex]
Generates the cases of CHECK once, measures which lines of the files they reach, makes small
mutations on these lines in memory (never in the tree) and lists the ones that no case detects.
"""
import argparse
import ast
import json
import os
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|",
       ast.BitOr: "&", ast.FloorDiv: "/"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
       ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not", ast.Add: "+",
       ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|",
       ast.FloorDiv: "//"}
NAMES = {"max": "min", "min": "max", "maximum": "minimum", "minimum": "maximum", "any": "all",
         "all": "any", "nanmax": "nanmin", "nanmin": "nanmax", "floor": "ceil", "ceil": "floor",
         "zeros": "ones", "ones": "zeros", "less": "less_equal", "greater": "greater_equal",
         "less_equal": "less", "greater_equal": "greater", "argmax": "argmin", "argmin": "argmax",
         "sin": "cos", "cos": "sin", "logical_and": "logical_or", "logical_or": "logical_and",
         "zeros_like": "ones_like", "cumsum": "array", "sort": "array", "flip": "array",
         "vstack": "hstack", "ge": "gt", "gt": "ge", "le": "lt", "lt": "le",
         "masked_less": "masked_less_equal", "append": "insert"}


def sites(source):
    tree = ast.parse(source)
    starts = [0]
    for line in source.split("\n"):
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = source.encode()

    def pos(line, col):
        return starts[line - 1] + col

    out = []

    def add(node, a, b, new, what):
        out.append({"line": node.lineno, "a": a, "b": b, "new": new, "what": what})

    def skip(node):
        return isinstance(node, (ast.Raise, ast.JoinedStr, ast.AnnAssign, ast.Import, ast.ImportFrom))

    def seg(n):
        return raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()

    def visit(node, func):
        if skip(node) and not isinstance(node, ast.AnnAssign):
            return
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
                visit(d, node.name)
            for i, s in enumerate(node.body):
                if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                visit(s, node.name)
            return
        if isinstance(node, ast.Call) and getattr(node.func, "attr", getattr(node.func, "id", "")) in (
                "warn", "print", "format", "TypeVar", "ValueError"):
            return
        if isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id in ("msg", "message", "err_msg") for t in node.targets):
            return
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = pos(left.end_lineno, left.end_col_offset), pos(right.lineno, right.col_offset)
                text = raw[a:b].decode()
                s = SYM.get(type(op))
                if s and text.count(s) >= 1:
                    k = a + text.index(s)
                    add(node, k, k + len(s), CMP[type(op)], "%s -> %s" % (s, CMP[type(op)]))
                left = right
        elif isinstance(node, (ast.BinOp, ast.AugAssign)):
            l, r = (node.left, node.right) if isinstance(node, ast.BinOp) else (node.target, node.value)
            s, n = SYM.get(type(node.op)), BIN.get(type(node.op))
            strs = any(isinstance(x, (ast.JoinedStr,)) or (
                isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in (l, r))
            if n and not strs:
                a, b = pos(l.end_lineno, l.end_col_offset), pos(r.lineno, r.col_offset)
                text = raw[a:b].decode()
                if s in text:
                    k = a + text.index(s)
                    add(node, k, k + len(s), n, "%s -> %s" % (s, n))
        elif isinstance(node, ast.BoolOp):
            s, n = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            for l, r in zip(node.values, node.values[1:]):
                a, b = pos(l.end_lineno, l.end_col_offset), pos(r.lineno, r.col_offset)
                text = raw[a:b].decode()
                if s in text:
                    k = a + text.index(s)
                    add(node, k, k + len(s), n, "%s -> %s" % (s, n))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            a, b = pos(node.lineno, node.col_offset), pos(node.operand.lineno, node.operand.col_offset)
            add(node, a, b, "", "drop " + raw[a:b].decode())
        elif isinstance(node, ast.Constant):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            v = node.value
            if isinstance(v, bool):
                add(node, a, b, str(not v), "%s -> %s" % (v, not v))
            elif isinstance(v, (int, float)):
                add(node, a, b, "(%s + 1)" % raw[a:b].decode(), "%s + 1" % raw[a:b].decode())
        elif isinstance(node, ast.IfExp):
            a, b = pos(node.test.lineno, node.test.col_offset), pos(node.test.end_lineno, node.test.end_col_offset)
            add(node, a, b, "not (%s)" % seg(node.test), "negate ternary")
        elif isinstance(node, (ast.If, ast.While)):
            a, b = pos(node.test.lineno, node.test.col_offset), pos(node.test.end_lineno, node.test.end_col_offset)
            if isinstance(node, ast.If):
                body_raise = all(isinstance(s, ast.Raise) or (isinstance(s, ast.Assign)) for s in node.body) and any(
                    isinstance(s, ast.Raise) for s in node.body)
                add(node, a, b, "False", "if -> False" + (" (raise)" if body_raise else ""))
                if not body_raise:
                    add(node, a, b, "True", "if -> True")
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            add(node, a, b, "pass", "drop " + seg(node)[:60].replace("\n", " "))
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            if func != "__init__":
                add(node, a, b, "pass", "drop " + seg(node)[:60].replace("\n", " "))
        elif isinstance(node, (ast.Continue, ast.Break)):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            add(node, a, b, "pass", "drop continue/break")
        if isinstance(node, ast.AugAssign):
            a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            add(node, a, b, "pass", "drop " + seg(node)[:60].replace("\n", " "))
        if isinstance(node, ast.Call):
            f = node.func
            name = getattr(f, "attr", getattr(f, "id", None))
            if name in NAMES and name != "append":
                b = pos(f.end_lineno, f.end_col_offset)
                add(node, b - len(name), b, NAMES[name], "%s -> %s" % (name, NAMES[name]))
            if name in ("copy", "abs", "round", "around", "rint", "sorted", "filled", "deepcopy", "set") and (
                    isinstance(f, ast.Name) or not node.args) and not (
                    isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "copy")):
                a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
                if isinstance(f, ast.Attribute):
                    add(node, a, b, seg(f.value), "drop .%s()" % name)
                elif len(node.args) == 1:
                    add(node, a, b, "(%s)" % seg(node.args[0]), "drop %s()" % name)
            if len(node.args) + len(node.keywords) > 0:
                for kw in node.keywords:
                    if kw.arg is None:
                        continue
                    a, b = pos(kw.lineno, kw.col_offset), pos(kw.end_lineno, kw.end_col_offset)
                    rest = raw[b:b + 3].decode(errors="ignore")
                    e = b + 1 if rest.startswith(",") else b
                    add(kw.value, a, e, "", "drop argument " + seg(kw)[:50])
        for child in ast.iter_child_nodes(node):
            if isinstance(node, ast.AnnAssign) and child is node.annotation:
                continue
            if isinstance(node, ast.Assert) and child is node.msg:
                continue
            visit(child, func)

    for stmt in tree.body:
        if isinstance(stmt, ast.ClassDef):
            for s in stmt.body:
                visit(s, stmt.name)
        else:
            visit(stmt, None)
    return out, raw


def collect(prop, count, seed):
    """The cases the check generates."""
    import hashlib

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from vp.worker import load_check

    module = load_check(os.path.join(HERE, "checks", prop + ".py"))
    count = count or module.QUICK
    total = sum(s.weight for s in module.SUBS.values())
    lists = []
    for name, sub in module.SUBS.items():
        n = max(8, int(count * sub.weight / total))
        got = []

        def body(case):
            got.append([name, json.loads(json.dumps(case))])

        test = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate],
                        suppress_health_check=list(HealthCheck))(given(sub.gen())(body))
        digest = hashlib.sha256(("%s%s%s" % (seed, prop, name)).encode()).hexdigest()
        hypothesis.seed(int(digest[:12], 16))(test)()
        lists.append(got)
    random.Random(seed).shuffle(lists)
    cases = []
    while any(lists):
        for x in lists:
            if x:
                cases.append(x.pop(0))
    return cases


def anchored(prop):
    """The spans of the functions and classes properties.jsonl names for the property."""
    for line in open(os.path.join(HERE, "properties.jsonl")):
        entry = json.loads(line)
        if entry["id"] == prop:
            break
    for mech in entry["anchors"]["mechanism"]:
        parts = re.split(r"(improver/[\w/]+\.py)", mech["where"])
        for f, names in zip(parts[1::2], parts[2::2]):
            want = re.findall(r"\w+", names)
            source = open(os.path.join(REPO, f)).read()
            if not want:
                yield f, 1, source.count("\n") + 1
            for node in ast.walk(ast.parse(source)):
                if getattr(node, "name", None) in want:
                    yield f, node.lineno, node.end_lineno


def run(prop, cases, jobs, tmp, trace=False, limit=90, nproc=8):
    spec, out = os.path.join(tmp, "spec.json"), os.path.join(tmp, "out.json")
    with open(spec, "w") as fh:
        json.dump({"cases": cases, "jobs": jobs, "trace": trace, "limit": limit, "nproc": nproc}, fh)
    env = dict(os.environ, PYTHONPATH=os.path.join(HERE, "shim") + ":" + REPO,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8", TZ="UTC", VERIF_HOME=HERE, VERIF_REPO=REPO)
    subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "tools", "mutrun.py"),
                    os.path.join(HERE, "checks", prop + ".py"), spec, out], env=env, check=True, cwd="/tmp")
    return json.load(open(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("files", nargs="?", help="default: what properties.jsonl anchors")
    ap.add_argument("--max", type=int, default=10000)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--nproc", type=int, default=8)
    ap.add_argument("--limit", type=int, default=120)
    ap.add_argument("--lines")
    ap.add_argument("--only")
    args = ap.parse_args()
    import tempfile

    tmp = tempfile.mkdtemp(prefix="mutate.")
    start = time.time()
    cases = collect(args.check, args.cases, args.seed)
    files, spans = [], {}
    if not args.files:
        for f, lo, hi in anchored(args.check):
            spans.setdefault(f, []).append((lo, hi))
        args.files = ",".join(sorted(spans))
    for f in args.files.split(","):
        full = os.path.join(REPO, f)
        if os.path.isdir(full):
            for d, _, names in os.walk(full):
                files += [os.path.relpath(os.path.join(d, n), REPO) for n in names if n.endswith(".py")]
        else:
            files.append(f)
    traces = [run(args.check, cases[i::8], [{"text": None}], tmp, trace=True, limit=900)[0]
              for i in range(1)]
    hit = {}
    for t in traces:
        for f, lines in t.get("lines", {}).items():
            hit.setdefault(f, set()).update(lines)
        if t.get("fails"):
            print("!! cases fail on the unchanged tree:", t["fails"][:3])
    jobs = []
    for f in sorted(files):
        source = open(os.path.join(REPO, f)).read()
        found, raw = sites(source)
        lo, hi = 0, 10 ** 9
        if args.lines:
            lo, hi = map(int, args.lines.split("-"))
        code = {s["line"] for s in found}
        cov = hit.get(f, set())
        missed = sorted(x for x in code if x not in cov and lo <= x <= hi and (
            f not in spans or any(a <= x <= b for a, b in spans[f])))
        print("%s: %d mutation sites, lines with sites not reached: %s" % (f, len(found), missed))
        for s in found:
            # multi-line statements report their first line only: accept a nearby line
            if f in spans and not any(lo <= s["line"] <= hi for lo, hi in spans[f]):
                continue
            if re.match("drop argument (divide|invalid|over|under|loc|dtype)", s["what"]):
                continue
            if not any(x in cov for x in range(s["line"] - 6, s["line"] + 1)) or not lo <= s["line"] <= hi:
                continue
            if s["line"] in missed and s["line"] not in cov and not any(
                    x in cov for x in range(s["line"] - 2, s["line"] + 2)):
                continue
            if args.only and not re.search(args.only, s["what"]):
                continue
            text = (raw[:s["a"]] + s["new"].encode() + raw[s["b"]:]).decode()
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            jobs.append({"file": f, "text": text, "line": s["line"], "what": s["what"]})
    rnd = random.Random(args.seed)
    if len(jobs) > args.max:
        jobs = rnd.sample(jobs, args.max)
    results = run(args.check, cases, jobs, tmp, limit=args.limit, nproc=args.nproc)
    killed = sum(r["status"] != "survived" for r in results)
    for j, r in sorted(zip(jobs, results), key=lambda z: (z[0]["file"], z[0]["line"])):
        if r["status"] != "killed":
            src = open(os.path.join(REPO, j["file"])).read().split("\n")[j["line"] - 1].strip()
            print("%s %s:%d  [%s]  %s%s" % (r["status"].upper(), j["file"].replace("improver/", ""), j["line"],
                                          j["what"], src[:90], "  (undecided %d)" % r["undecided"] if r.get("undecided") else ""))
    print("%s: %d mutants, %d detected, %d cases, %.0f s" % (args.check, len(jobs), killed, len(cases), time.time() - start))
    import shutil

    assert "/mutate." in tmp
    shutil.rmtree(tmp)


main()
