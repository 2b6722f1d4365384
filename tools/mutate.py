#!/usr/bin/env python3
"""Sweep small changes over one module of a scratch copy of /repo and list those that no check reports.

usage: mutate.py FILE CHECKS OUT [--limit N] [--seed S]   (FILE relative to dissect/volume, CHECKS comma separated)
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.Div: "*"}
SKIP = {"__repr__", "__str__", "__format__"}


def offsets(src):
    out, n = [], 0
    for line in src.splitlines(keepends=True):
        out.append(n)
        n += len(line.encode())
    return out


def span(node, offs):
    return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset


def mutants(src, rng):
    tree = ast.parse(src)
    raw = src.encode()
    offs = offsets(src)
    parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
    out = []

    def dead(n):
        """In annotations, messages, representation methods and documentation."""
        while n is not None:
            p = parents.get(n)
            if isinstance(n, ast.FunctionDef) and n.name in SKIP:
                return True
            if isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
                return True
            if isinstance(p, ast.Raise) or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "print":
                return True
            if isinstance(p, ast.arg) or isinstance(p, ast.FunctionDef) and (n is p.returns or n in p.decorator_list):
                return True
            if isinstance(p, ast.AnnAssign) and n is p.annotation:
                return True
            if isinstance(p, ast.If) and isinstance(p.test, ast.Name) and p.test.id in ("TYPE_CHECKING", "DEBUG"):
                return True
            n = p
        return False

    def put(n, text, what):
        a, b = span(n, offs)
        old = raw[a:b].decode()
        if old != text:
            out.append((n.lineno, what, a, b, text))

    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or dead(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            put(n, f"{l} {CMP[type(n.ops[0])]} {r}" if not isinstance(parents[n], (ast.BinOp, ast.UnaryOp)) else f"({l} {CMP[type(n.ops[0])]} {r})", "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            if isinstance(n.op, ast.BitOr) and isinstance(parents[n], (ast.AnnAssign,)):
                continue
            put(n, f"({ast.unparse(n.left)} {BIN[type(n.op)]} {ast.unparse(n.right)})", "arith")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            put(n, f"{ast.unparse(n.target)} {BIN[type(n.op)]}= {ast.unparse(n.value)}", "aug")
            put(n, "pass", "drop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), "const+1")
            if n.value > 0:
                put(n, str(n.value - 1), "const-1")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bytes, str)) and not isinstance(parents[n], ast.Expr) and len(n.value) < 80 and "\n" not in str(n.value):
            if n.value and not isinstance(parents[n], ast.keyword):
                put(n, repr(n.value[1:] + n.value[:1] if len(set(n.value)) > 1 else n.value + n.value), "text")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(f"({ast.unparse(v)})" for v in n.values) + ")", "bool op")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({ast.unparse(v)})" for v in rest) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({ast.unparse(n.operand)})", "not")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "drop raise")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield, ast.YieldFrom)):
            put(n, "pass", "drop call")
        elif isinstance(n, ast.Assign) and isinstance(parents[n], (ast.If, ast.For, ast.While)):
            put(n, "pass", "drop assign")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, "return None", "return None")
        if isinstance(n, (ast.If, ast.IfExp)) and not (isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING"):
            put(n.test, "True", "if True")
            put(n.test, "False", "if False")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                put(n.func, "max" if n.func.id == "min" else "min", "min/max")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed", "set") and len(n.args) == 1 and not n.keywords:
                put(n, f"list({ast.unparse(n.args[0])})", "unsorted")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[0], n.args[1]
                if ast.unparse(a) != ast.unparse(b):
                    args = [ast.unparse(b), ast.unparse(a)] + [ast.unparse(x) for x in n.args[2:]] + [ast.unparse(k) for k in n.keywords]
                    put(n, f"{ast.unparse(n.func)}({', '.join(args)})", "swap args")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    args = [ast.unparse(x) for x in n.args] + [ast.unparse(x) for x in n.keywords if x is not k]
                    put(n, f"{ast.unparse(n.func)}({', '.join(args)})", "drop keyword " + k.arg)
    # attributes of the same object, and local names
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or f.name in SKIP:
            continue
        attrs, names = {}, set()
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not isinstance(parents.get(n), ast.Call):
                attrs.setdefault(ast.unparse(n.value), set()).add(n.attr)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        names |= {a.arg for a in f.args.args if a.arg not in ("self", "cls")}
        for n in ast.walk(f):
            if dead(n):
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (isinstance(parents.get(n), ast.Call) and parents[n].func is n):
                others = sorted(attrs.get(ast.unparse(n.value), set()) - {n.attr})
                if others:
                    put(n, f"{ast.unparse(n.value)}.{rng.choice(others)}", "attribute")
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1 and isinstance(parents.get(n), (ast.BinOp, ast.Compare)):
                put(n, rng.choice(sorted(names - {n.id})), "name")
    # structure definitions in text
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.count("\n") > 5 and ("struct" in n.value or "#define" in n.value or "enum" in n.value):
            a, b = span(n, offs)
            text = raw[a:b].decode()
            lines = text.split("\n")
            pos = a
            for i, line in enumerate(lines):
                end = pos + len(line.encode())
                ln = n.lineno + i
                code = re.sub(r"//.*|/\*.*?\*/", "", line)
                m = re.match(r"\s*(uint|u?int|__[lu]e|__u|ui?n?t?)?(8|16|32|64|128)?", line)
                t = re.search(r"\b(u?int|__le|__be|__u|uint)(8|16|32|64)(_t)?\b", code)
                if t and ";" in code:
                    w = {"8": "16", "16": "32", "32": "64", "64": "32"}[t[2]]
                    out.append((ln, "field width", pos, end, line[: t.start(2)] + w + line[t.end(2):]))
                if ";" in code and "}" not in code and i + 1 < len(lines) and ";" in lines[i + 1] and "}" not in lines[i + 1]:
                    e2 = end + 1 + len(lines[i + 1].encode())
                    out.append((ln, "field order", pos, e2, lines[i + 1] + "\n" + line))
                m = re.search(r"(#define\s+\w+\s+|=\s*)(0x[0-9a-fA-F]+|\d+)", code)
                if m:
                    out.append((ln, "value", pos, end, line[: m.start(2)] + str(int(m[2], 0) + 1) + line[m.end(2):]))
                m = re.search(r"\[(\d+)\]", code)
                if m:
                    out.append((ln, "array", pos, end, line[: m.start(1)] + str(int(m[1]) + 1) + line[m.end(1):]))
                pos = end + 1
    seen, uniq = set(), []
    for x in out:
        k = (x[2], x[3], x[4])
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    return raw, uniq


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("out")
    ap.add_argument("--limit", type=int, default=10**9)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    path = f"/repo/dissect/volume/{a.file}"
    with open(path) as f:
        src = f.read()
    raw, ms = mutants(src, rng)
    if a.lines:
        lo, hi = (int(x) for x in a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if len(ms) > a.limit:
        ms = rng.sample(ms, a.limit)
    ms.sort()
    base = tempfile.mkdtemp(prefix="mutate.")

    def one(im):
        i, (line, what, x, y, text) = im
        new = raw[:x] + text.encode() + raw[y:]
        try:
            ast.parse(new)
        except SyntaxError:
            return None
        d = f"{base}/{i}"
        shutil.copytree("/repo/dissect", d + "/dissect", ignore=shutil.ignore_patterns("__pycache__"))
        with open(f"{d}/dissect/volume/{a.file}", "wb") as f:
            f.write(new)
        how, notes = "SURVIVED", ""
        ev = tempfile.mkdtemp(prefix="mutate.ev.")
        try:
            for c in a.checks.split(","):
                r = subprocess.run(["python3", os.path.join(os.path.dirname(__file__), "..", "check.py"), c], capture_output=True, text=True,
                                   env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": ev, "VFA_EFFORT": os.environ.get("VFA_EFFORT", "8")})
                if r.returncode == 1:
                    how = c
                    break
                if r.returncode != 0:
                    notes += f" {c}: exit {r.returncode} " + " ".join(r.stdout.splitlines()[-1:] + r.stderr.splitlines()[-1:])[:150]
                elif "UNDECIDED" in r.stdout:
                    notes += f" {c}: undecided " + r.stdout.split("UNDECIDED")[1].splitlines()[0][:150]
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(ev, ignore_errors=True)
        return {"line": line, "what": what, "old": raw[x:y].decode()[:100], "new": text[:100], "by": how, "notes": notes}

    with ThreadPoolExecutor(a.jobs) as ex:
        res = [r for r in ex.map(one, enumerate(ms)) if r]
    shutil.rmtree(base, ignore_errors=True)
    with open(a.out, "w") as f:
        json.dump(res, f, indent=0)
    left = [r for r in res if r["by"] == "SURVIVED"]
    print(f"{a.file}: {len(res)} changes, {len(res) - len(left)} reported")
    for r in left:
        print(f"  {r['line']} [{r['what']}] {r['old']!r} -> {r['new']!r} {r['notes']}")


if __name__ == "__main__":
    main()
