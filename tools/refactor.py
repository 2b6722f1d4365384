#!/usr/bin/env python3
"""Apply a behaviour-preserving rewrite everywhere in a copy of the package; the checks have to stay quiet on the result.

usage: refactor.py KIND OUT      KIND: one of the functions below, OUT: directory to write the rewritten repository to
       refactor.py --list
"""
from __future__ import annotations

import ast
import copy
import os
import shutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PURE = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.Load,
        ast.expr_context, ast.Subscript)


def pure(e):
    return all(isinstance(n, PURE) for n in ast.walk(e))


class Fresh:
    n = 0

    @classmethod
    def name(cls, p="tmp"):
        cls.n += 1
        return f"_{p}{cls.n}"


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def store(i):
    return ast.Name(i, ast.Store())


class Rewrite(ast.NodeTransformer):
    """Only function bodies are rewritten."""

    def __init__(self):
        self.depth = 0
        self.count = 0
        self.cls = []
        self.new = []

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = self.body(n.body)
        self.depth -= 1
        return n

    def visit_ClassDef(self, n):
        self.cls.append(n)
        n.body = [self.visit(x) for x in n.body]
        self.cls.pop()
        return n

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and self.depth and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.body(b))
        for f, v in ast.iter_fields(n):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list) and self.depth and v and isinstance(v[0], ast.stmt):
                continue
            if f in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(v, ast.AST):
                r = self.visit(v)
                setattr(n, f, r)
            elif isinstance(v, list):
                setattr(n, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
        return n


class AugPlain(Rewrite):
    """x += y  ->  x = x + y (numbers only: names of lists are left alone)"""

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, (ast.Constant, ast.BinOp, ast.Name, ast.Attribute)) and n.target.id not in ("result", "buf"):
            self.count += 1
            return ast.Assign([store(n.target.id)], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class SwapIf(Rewrite):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            self.count += 1
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            return n
        self.count += 1
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class FlipCompare(Rewrite):
    """a < b  ->  b > a"""

    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.FLIP and not any(isinstance(x, (ast.NamedExpr, ast.Call)) for x in ast.walk(n)):
            self.count += 1
            return ast.Compare(n.comparators[0], [self.FLIP[type(n.ops[0])]()], [n.left])
        return n


class NotCompare(Rewrite):
    """a == b -> not a != b, a < b -> not a >= b"""

    NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            self.count += 1
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.NEG[type(n.ops[0])]()], n.comparators))
        return n


class IfExpStatement(Rewrite):
    """x = a if c else b  ->  if c: x = a else: x = b; the same for return"""

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
            self.count += 1
            v = n.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(n.targets), v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            self.count += 1
            v = n.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return n


class StatementIfExp(Rewrite):
    """if c: x = a else: x = b  ->  x = a if c else b"""

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                self.count += 1
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                self.count += 1
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
        return n


class TempReturn(Rewrite):
    """return e  ->  tmp = e; return tmp"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        self.count += 1
        t = Fresh.name("out")
        return [ast.Assign([store(t)], n.value), ast.Return(name(t))]


class TempArgs(Rewrite):
    """x = f(a + b)  ->  t = a + b; x = f(t) (arguments that have no effects)"""

    def pull(self, call, pre):
        for i, a in enumerate(call.args):
            if isinstance(a, (ast.BinOp, ast.Attribute)) and pure(a):
                t = Fresh.name("arg")
                pre.append(ast.Assign([store(t)], a))
                call.args[i] = name(t)

    def stmt(self, n):
        v = n.value
        pre = []
        if isinstance(v, ast.Call) and (isinstance(v.func, ast.Name) or isinstance(v.func, ast.Attribute) and pure(v.func)):
            self.pull(v, pre)
        self.count += len(pre)
        return [*pre, n] if pre else n

    visit_Assign = visit_Expr = visit_Return = stmt


class WhileRange(Rewrite):
    """for i in range(..): B  ->  i counted in a while loop (bodies without continue)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and isinstance(n.target, ast.Name)
                and len(n.iter.args) < 3 and not n.orelse) or jumps(n.body, ast.Continue):
            return n
        self.count += 1
        lo, hi = (ast.Constant(0), n.iter.args[0]) if len(n.iter.args) == 1 else n.iter.args
        i, e = Fresh.name("i"), Fresh.name("end")
        return [ast.Assign([store(i)], lo), ast.Assign([store(e)], hi),
                ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                          [ast.Assign([store(n.target.id)], name(i)), ast.AugAssign(store(i), ast.Add(), ast.Constant(1)), *n.body], [])]


def jumps(body, kind):
    out = []
    stack = list(body)
    while stack:
        x = stack.pop()
        if isinstance(x, kind):
            out.append(x)
        if isinstance(x, (ast.For, ast.While)) and kind in (ast.Break, ast.Continue):
            stack += x.orelse
            continue
        stack += [c for c in ast.iter_child_nodes(x)]
    return out


class IndexFor(Rewrite):
    """for x in xs: B  ->  items = list(xs); for i in range(len(items)): x = items[i]; B"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range":
            return n
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in n.body for x in ast.walk(b)):
            return n
        if isinstance(n.iter, ast.Name) and n.iter.id in ("it", "lines", "fh"):
            return n
        self.count += 1
        xs, i = Fresh.name("items"), Fresh.name("i")
        return [ast.Assign([store(xs)], ast.Call(name("list"), [n.iter], [])),
                ast.For(store(i), ast.Call(name("range"), [ast.Call(name("len"), [name(xs)], [])], []),
                        [ast.Assign([n.target], ast.Subscript(name(xs), name(i), ast.Load())), *n.body], n.orelse)]


class CompLoop(Rewrite):
    """x = [e for v in xs if c]  ->  an explicit loop (comprehension variables get fresh names)"""

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            ren = {x: Fresh.name(x) for x in names}
            v = copy.deepcopy(v)
            it = v.generators[0].iter
            for part in [v.elt, v.generators[0].target, *v.generators[0].ifs]:
                for x in ast.walk(part):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            t = Fresh.name("list")
            body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))]
            for c in reversed(v.generators[0].ifs):
                body = [ast.If(c, body, [])]
            self.count += 1
            return [ast.Assign([store(t)], ast.List([], ast.Load())), ast.For(v.generators[0].target, it, body, []), ast.Assign(n.targets, name(t))]
        return n


class HelperExpr(Rewrite):
    """a op b over local names and constants  ->  a call of a new module level function"""

    def visit_Assign(self, n):
        n.value = self.expr(n.value)
        return n

    def visit_Return(self, n):
        if n.value is not None:
            n.value = self.expr(n.value)
        return n

    def expr(self, e):
        if isinstance(e, (ast.BinOp, ast.Compare)) and all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.Compare, ast.operator, ast.cmpop, ast.Load))
                                                           for x in ast.walk(e)):
            names = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name) and not x.id.isupper()})
            if names:
                f = Fresh.name("helper")
                self.new.append(ast.FunctionDef(f, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), [ast.Return(e)], []))
                self.count += 1
                return ast.Call(name(f), [name(x) for x in names], [])
        return e


class Wrap(Rewrite):
    """def f(..): B  ->  def f(..): return _inner(..) with the body in a new function next to it (plain functions and methods)"""

    def visit_FunctionDef(self, n):
        a = n.args
        if (self.depth or a.vararg or a.kwarg or a.kwonlyargs or n.decorator_list or n.name.startswith("__")
                or any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super"
                       for x in ast.walk(n))):
            return n
        self.count += 1
        inner = Fresh.name(n.name.strip("_"))
        names = [x.arg for x in a.args]
        m = copy.deepcopy(n)
        m.name = inner
        m.args.defaults = []
        if self.cls:
            call = ast.Call(ast.Attribute(name(names[0]), inner, ast.Load()), [name(x) for x in names[1:]], [])
        else:
            call = ast.Call(name(inner), [name(x) for x in names], [])
        n.body = [ast.Return(call)]
        return [m, n]

    def visit_ClassDef(self, n):
        self.cls.append(n)
        out = []
        for x in n.body:
            r = self.visit(x) if isinstance(x, ast.FunctionDef) else x
            out += r if isinstance(r, list) else [r]
        n.body = out
        self.cls.pop()
        return n


class Rename(Rewrite):
    """Local variables (not parameters) get other names."""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Global, ast.Nonlocal)) and x is not n for x in ast.walk(n)):
            return n
        params = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
        ren = {x.id: x.id + "_v" for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in params}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
                self.count += 1
        return n


class Reorder(Rewrite):
    """Neighbouring assignments without effects that do not depend on each other change places."""

    def body(self, stmts):
        out = super().body(stmts)
        i = 0
        while i + 1 < len(out):
            if self.free(out[i], out[i + 1]):
                out[i], out[i + 1] = out[i + 1], out[i]
                self.count += 1
                i += 1
            i += 1
        return out

    def free(self, a, b):
        if not all(isinstance(x, ast.Assign) and len(x.targets) == 1 and pure(x.value) and not any(isinstance(y, ast.Subscript) for y in ast.walk(x.value))
                   for x in (a, b)):
            return False
        ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
        if not all(isinstance(x.targets[0], (ast.Name, ast.Attribute)) for x in (a, b)):
            return False
        ra = {ast.unparse(x) for x in ast.walk(a.value)}
        rb = {ast.unparse(x) for x in ast.walk(b.value)}
        rb |= {ast.unparse(x) for x in ast.walk(b.targets[0]) if x is not b.targets[0]}
        ra |= {ast.unparse(x) for x in ast.walk(a.targets[0]) if x is not a.targets[0]}
        return ta != tb and ta not in rb and tb not in ra


class NestReturn(Rewrite):
    """if c: return x; REST  ->  if c: return x; else: REST"""

    def body(self, stmts):
        out = super().body(stmts)
        for i, s in enumerate(out[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                self.count += 1
                s.orelse = self.nest(out[i + 1:])
                return out[: i + 1]
        return out

    def nest(self, stmts):
        for i, s in enumerate(stmts[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                s.orelse = self.nest(stmts[i + 1:])
                return stmts[: i + 1]
        return stmts


class MinMax(Rewrite):
    """min(a, b)  ->  a if a <= b else b; max alike"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("min", "max") and len(n.args) == 2 and not n.keywords and all(pure(x) for x in n.args):
            self.count += 1
            a, b = n.args
            op = ast.LtE() if n.func.id == "min" else ast.GtE()
            return ast.IfExp(ast.Compare(a, [op], [b]), copy.deepcopy(a), copy.deepcopy(b))
        return n


class DivMod(Rewrite):
    """a, b = divmod(x, y)  ->  a = x // y; b = x % y, and x // y apart from that unchanged"""

    def visit_Assign(self, n):
        v = n.value
        if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "divmod" and isinstance(n.targets[0], ast.Tuple)
                and all(pure(x) for x in v.args)):
            a, b = n.targets[0].elts
            self.count += 1
            x, y = Fresh.name("x"), Fresh.name("y")
            return [ast.Assign([store(x)], v.args[0]), ast.Assign([store(y)], v.args[1]),
                    ast.Assign([a], ast.BinOp(name(x), ast.FloorDiv(), name(y))), ast.Assign([b], ast.BinOp(name(x), ast.Mod(), name(y)))]
        return n


class Walrus(Rewrite):
    """if (x := e): -> x = e; if x:"""

    def visit_If(self, n):
        self.generic_visit(n)
        w = [x for x in ast.walk(n.test) if isinstance(x, ast.NamedExpr)]
        first = n.test
        while not isinstance(first, ast.NamedExpr):
            if isinstance(first, ast.Compare):
                first = first.left
            elif isinstance(first, ast.UnaryOp):
                first = first.operand
            elif isinstance(first, ast.BoolOp):
                first = first.values[0]
            else:
                return n
        if len(w) != 1:
            return n
        self.count += 1

        class Put(ast.NodeTransformer):
            def visit_NamedExpr(self, x):
                return name(x.target.id)

        n.test = Put().visit(n.test)
        return [ast.Assign([store(first.target.id)], first.value), n]


class WhileTrue(Rewrite):
    """while c: B  ->  while True: if not c: break; B"""

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        self.count += 1
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []), *n.body], [])


class Demorgan(Rewrite):
    """a and b  ->  not (not a or not b) in conditions"""

    def cond(self, e):
        if isinstance(e, ast.BoolOp) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)):
            self.count += 1
            other = ast.Or() if isinstance(e.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(other, [ast.UnaryOp(ast.Not(), self.cond(x)) for x in e.values]))
        return e

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.cond(n.test)
        return n

    visit_While = visit_If


class SplitAnd(Rewrite):
    """if a and b: X (no else)  ->  if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            self.count += 1
            body = n.body
            for c in reversed(n.test.values):
                body = [ast.If(c, body, [])]
            return body[0]
        return n


class Tuples(Rewrite):
    """x = a; y = b  (neighbours, independent, no effects)  ->  x, y = a, b"""

    def body(self, stmts):
        out = super().body(stmts)
        res, i = [], 0
        while i < len(out):
            if i + 1 < len(out) and Reorder.free(self, out[i], out[i + 1]):
                a, b = out[i], out[i + 1]
                res.append(ast.Assign([ast.Tuple([a.targets[0], b.targets[0]], ast.Store())], ast.Tuple([a.value, b.value], ast.Load())))
                self.count += 1
                i += 2
            else:
                res.append(out[i])
                i += 1
        return res


class KeywordOff(Rewrite):
    """local alias of self attributes: the first read of self.x in a method body is kept in a local (methods that never assign it)"""

    def visit_FunctionDef(self, n):
        if not self.cls or n.name.startswith("__") or not n.args.args or n.args.args[0].arg != "self" or any(
                isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Yield)) and x is not n for x in ast.walk(n)):
            return n
        written = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load)}
        fields = {x.attr for x in ast.walk(self.cls[-1]) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                  and isinstance(x.value, ast.Name) and x.value.id == "self"}
        first = next((x for x in n.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))), None)
        if first is None:
            return n
        used = [x.attr for x in ast.walk(first) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"
                and x.attr in fields and x.attr not in written and not x.attr.startswith("__")]
        if not used or isinstance(first, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            return n
        f, loc = used[0], Fresh.name(used[0])

        class Put(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if x.attr == f and isinstance(x.value, ast.Name) and x.value.id == "self":
                    return name(loc)
                return x

        at = n.body.index(first)
        n.body = n.body[:at] + [ast.Assign([store(loc)], ast.Attribute(name("self"), f, ast.Load()))] + [Put().visit(x) for x in n.body[at:]]
        self.count += 1
        return n


class DropAnn(Rewrite):
    """annotations of local variables and attributes, and of the arguments and results of private functions, are left out"""

    def visit_FunctionDef(self, n):
        n = super().visit_FunctionDef(n) if hasattr(Rewrite, "visit_FunctionDef") else self.generic_visit(n)
        if n.name.startswith("_") and not n.name.startswith("__"):
            n.returns = None
            for a in n.args.args + n.args.kwonlyargs:
                a.annotation = None
                self.count += 1
        for x in ast.walk(n):
            for f in ("body", "orelse", "finalbody"):
                stmts = getattr(x, f, None)
                if isinstance(stmts, list):
                    for i, s in enumerate(stmts):
                        if isinstance(s, ast.AnnAssign) and s.value is not None:
                            stmts[i] = ast.Assign([s.target], s.value)
                            self.count += 1
        return n


KINDS = {k.__name__.lower(): k for k in (AugPlain, SwapIf, FlipCompare, NotCompare, IfExpStatement, StatementIfExp, TempReturn, TempArgs, WhileRange, IndexFor,
                                         CompLoop, HelperExpr, Wrap, Rename, Reorder, NestReturn, MinMax, DivMod, Walrus, WhileTrue, Demorgan, SplitAnd,
                                         Tuples, KeywordOff, DropAnn)}


def main(argv):
    if argv[1] == "--list":
        print(" ".join(KINDS))
        return
    kind, out = KINDS[argv[1]], argv[2]
    shutil.copytree(os.path.join(REPO, "dissect"), os.path.join(out, "dissect"), dirs_exist_ok=True)
    total = 0
    for d, _, files in os.walk(os.path.join(out, "dissect")):
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            with open(p, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
            r = kind()
            body = []
            for x in tree.body:
                v = r.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x
                body += v if isinstance(v, list) else [v]
            tree.body = body + r.new
            total += r.count
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")
    print(f"{argv[1]}: {total} sites")


if __name__ == "__main__":
    main(sys.argv)
