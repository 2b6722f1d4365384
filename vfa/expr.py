"""Expression part of the value-flow analysis: attribute access, calls, containers, streams, structures."""
from __future__ import annotations

import ast
import builtins
import io
import re
import string
import struct as _struct
import uuid as _uuid

from . import terms as tm
from .cdef import CDefError, CType, Namespace
from .builtins_ import STR_RET
from .terms import (C, FALSE, NONE, ONE, TRUE, T, UNDEF, ZERO, add, and_, bitop, cv, eq, fdiv, gt0, isc, isnone, ite, kind, le,
                    length, lt, mk, mod, mul, neg, not_, or_, shl, shr, sub, truth)


def _I():
    from . import interp

    return interp


def own_names(node):
    """Names the statements of a function bind."""
    if node is None:
        return ()
    if not hasattr(node, "own_names"):
        node.own_names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    return node.own_names


def comparable(x, y):
    try:
        x < y
        return True
    except TypeError:
        return False


class TyV:
    """A type expression used as a value (typing reflection)."""

    def __init__(self, n, mod):
        self.n, self.mod = n, mod


STREAM_ATTRS = {*dir(io.RawIOBase), "peek", "_fill_buf", "_read", "_seek", "_buf", "_pos", "_pos_align", "_lock", "_read_range", "_set_pos"}
NOOP = {"print", "warnings.warn"}


class ExprMixin:
    # ============================================================== expressions
    def truthy(self, n, st, fr):
        """Value of a condition (fully boolean)."""
        if isinstance(n, ast.BoolOp):
            cs = None
            isand = isinstance(n.op, ast.And)

            def go(i, s):
                c = self.truth_of(self.truthy(n.values[i], s, fr), s)
                if s.dead or i == len(n.values) - 1:
                    return c
                if isand:
                    return self.fork(s, c, lambda x: go(i + 1, x), lambda x: FALSE)
                return self.fork(s, c, lambda x: TRUE, lambda x: go(i + 1, x))

            return go(0, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.truth_of(self.truthy(n.operand, st, fr), st))
        return self.truth_of(self.ev(n, st, fr), st)

    def truth_of(self, t, st):
        if t.op == "ref":
            o = self.objs[t.a[0]]
            if o.kind in self.CONTENT and o.kind != "bio":
                return truth(self.val(t, st))
            if o.kind == "instance":
                f = o.cls.find("__bool__")
                if f is not None:
                    return truth(self.call(mk("bound", t, f), [], {}, st))
                f = o.cls.find("__len__")
                if f is not None:
                    return truth(self.call(mk("bound", t, f), [], {}, st))
            return TRUE
        if t.op == "path" or t.op == "haddr":
            return truth(self.val(t, st))
        if self.is_haddr(t):
            return and_(not_(isnone(t)), truth(self.val(t, st)))
        if t.op == "ite":
            return ite(t.a[0], self.truth_of(t.a[1], st), self.truth_of(t.a[2], st))
        if t.op == "enum":
            v = t.a[0].member_values.get(t.a[1])
            return truth(v) if v is not None and "bytes" in t.a[0].builtin_bases() and isc(v) and isinstance(cv(v), bytes) else TRUE
        ty = self.type_of(t)
        if ty and ty[0] == "union" and ("none",) in ty[1]:
            rest = self.strip_none(ty)
            if rest and rest[0] in ("cls", "stream", "token", "struct"):
                return not_(mk("isnone", t))
        if ty and ty[0] in ("cls", "stream") and t.op not in ("lv", "out", "mgetd", "app"):
            return TRUE
        return truth(t)

    def ev(self, n, st, fr) -> T:
        if st.dead:
            return UNDEF
        saved = self.node
        if hasattr(n, "lineno"):
            self.node = n
        depth = (len(self.callstack), len(self.trystack), len(self.raises), self.loopstack)
        try:
            r = self._ev(n, st, fr)
        except (TypeError, ValueError, AttributeError, KeyError, IndexError, ArithmeticError, AssertionError) as e:
            # folding failed on a combination of values the analysis has no term for: nothing is known about the result
            del self.callstack[depth[0] :], self.trystack[depth[1] :], self.raises[depth[2] :]
            self.loopstack = depth[3]
            r = self.lost(st, f"{type(e).__name__}: {e}")
        self.node = saved
        return r

    def lookup(self, name, st, fr):
        f = fr
        first = True
        while f is not None:
            if f.acc is not None and name == f.acc[0]:
                return mk("bi", f"@acc{f.fid}")
            v = st.cells.get(("v", f.fid, name))
            if v is not None:
                return v
            if first and getattr(f, "cls_body", None) is not None and name in f.cls_body.ns:
                return f.cls_body.ns[name]
            if f.parent is None:
                break
            f = f.parent
            first = False
        m = fr.mod
        if name in m.env:
            return m.env[name]
        if name in _I().BUILTIN_NAMES:
            return mk("bi", name)
        if name in m.tenv:
            return self.import_from(*m.tenv[name])
        if name == "__name__":
            return C(m.name)
        if self.raises and self.never_bound(name, fr):
            self.raise_if(st, TRUE, "UnboundLocalError", force=True)
            return UNDEF
        return self.top(f"unbound name {name}")

    def never_bound(self, name, fr):
        """The name is a local that no statement on the way here has set."""
        if not hasattr(fr.mod, "bindings"):
            # what the module binds outside its functions
            fr.mod.bindings = set()
            todo = list(fr.mod.tree.body)
            while todo:
                n = todo.pop()
                if isinstance(n, ast.ClassDef):
                    # what a class body binds are attributes of the class
                    fr.mod.bindings.add(n.name)
                    todo.extend(g for g in ast.walk(n) if isinstance(g, ast.Import | ast.ImportFrom))
                    fr.mod.bindings.update(x for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names)
                    continue
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    fr.mod.bindings.add(n.id)
                elif isinstance(n, ast.FunctionDef):
                    fr.mod.bindings.add(n.name)
                elif isinstance(n, ast.alias):
                    fr.mod.bindings.add((n.asname or n.name).split(".")[0])
                if isinstance(n, ast.FunctionDef):
                    todo.extend(g for g in ast.walk(n) if isinstance(g, ast.Import | ast.ImportFrom))
                    fr.mod.bindings.update(x for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names)
                else:
                    todo.extend(ast.iter_child_nodes(n))
        f = fr
        while f is not None:
            if getattr(f, "cls_body", None) is not None:
                return False
            if name in own_names(getattr(f.func, "node", None)):
                return True
            f = f.parent
        if name not in fr.mod.bindings and "*" not in fr.mod.bindings and not hasattr(builtins, name):
            return True
        return False

    def _ev(self, n, st, fr) -> T:
        k = type(n)
        if k is ast.Constant:
            if n.value is Ellipsis:
                return mk("bi", "Ellipsis")
            return C(n.value)
        if k is ast.Name:
            return self.lookup(n.id, st, fr)
        if k is ast.Attribute:
            o = self.ev(n.value, st, fr)
            return UNDEF if st.dead else self.getattr_(o, n.attr, st)
        if k is ast.Call:
            return self.ev_call(n, st, fr)
        if k is ast.BinOp:
            a = self.ev(n.left, st, fr)
            b = self.ev(n.right, st, fr)
            return UNDEF if st.dead else self.binop(n.op, a, b, st)
        if k is ast.BoolOp:
            isand = isinstance(n.op, ast.And)

            def go(i, s):
                v = self.ev(n.values[i], s, fr)
                if s.dead or i == len(n.values) - 1:
                    return v
                c = self.truth_of(v, s)
                if isand:
                    return self.fork(s, c, lambda x: go(i + 1, x), lambda x: v)
                return self.fork(s, c, lambda x: v, lambda x: go(i + 1, x))

            return go(0, st)
        if k is ast.UnaryOp:
            if isinstance(n.op, ast.Not):
                return not_(self.truthy(n.operand, st, fr))
            v = self.ev(n.operand, st, fr)
            if st.dead:
                return UNDEF
            if isinstance(n.op, ast.USub):
                if isc(v) and isinstance(cv(v), float):
                    return C(-cv(v))
                return neg(v)
            if isinstance(n.op, ast.UAdd):
                return v
            return sub(neg(v), ONE)  # ~v == -v - 1
        if k is ast.Compare:
            left = self.ev(n.left, st, fr)
            if len(n.ops) == 1:
                r = self.ev(n.comparators[0], st, fr)
                return UNDEF if st.dead else self.cmp(n.ops[0], left, r, st)
            res = []
            for op, c in zip(n.ops, n.comparators):
                r = self.ev(c, st, fr)
                if st.dead:
                    return UNDEF
                res.append(self.cmp(op, left, r, st))
                left = r
            return and_(*[truth(x) for x in res])
        if k is ast.IfExp:
            c = self.truthy(n.test, st, fr)
            if st.dead:
                return UNDEF
            return self.fork(st, c, lambda s: self.ev(n.body, s, fr), lambda s: self.ev(n.orelse, s, fr))
        if k is ast.Subscript:
            o = self.ev(n.value, st, fr)
            if st.dead:
                return UNDEF
            if o.op == "bi" and o.a[0] in ("dict", "list", "tuple", "set", "type"):
                return self.mk_ty(n, fr.mod)
            if isinstance(n.slice, ast.Slice):
                lo = self.ev(n.slice.lower, st, fr) if n.slice.lower else NONE
                hi = self.ev(n.slice.upper, st, fr) if n.slice.upper else NONE
                sp = self.ev(n.slice.step, st, fr) if n.slice.step else NONE
                if st.dead:
                    return UNDEF
                v = self.val(o, st)
                r = self.slice_(v, lo, hi, sp)
                if o.op == "ref" and self.objs[o.a[0]].kind == "list":
                    return self.new_list(st, r)
                return r
            i = self.ev(n.slice, st, fr)
            return UNDEF if st.dead else self.getitem(o, i, st)
        if k is ast.Tuple:
            xs = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    v = self.ev(e.value, st, fr)
                    while v.op == "ite" and (v.a[1] is NONE or v.a[2] is NONE):
                        self.raise_if(st, v.a[0] if v.a[1] is NONE else not_(v.a[0]), "TypeError", force=True)
                        v = v.a[2] if v.a[1] is NONE else v.a[1]
                    s = self.as_seq(v, st)
                    items = self.literal_items(s)
                    if items is None:
                        return self.top("starred tuple")
                    xs += items
                else:
                    xs.append(self.ev(e, st, fr))
            return UNDEF if st.dead else mk("tuple", *xs)
        if k is ast.List:
            return self.ev_list(n, st, fr)
        if k is ast.Set:
            xs = [self.ev(e, st, fr) for e in n.elts]
            return UNDEF if st.dead else self.new_set(st, mk("set", *xs))
        if k is ast.Dict:
            m = mk("dict")
            for kk, vv in zip(n.keys, n.values):
                if kk is None:
                    o = self.val(self.ev(vv, st, fr), st)
                    m = self.mupdate(m, o)
                else:
                    key = self.ev(kk, st, fr)
                    v = self.ev(vv, st, fr)
                    if st.dead:
                        return UNDEF
                    m = self.mset(m, self.keyval(key, st), v)
            return UNDEF if st.dead else self.new_dict(st, m)
        if k in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.ev_comp(n, st, fr)
        if k is ast.Lambda:
            I = _I()
            f = I.FuncV("<lambda>", n, fr.mod, None if getattr(fr, "is_module", False) else fr, None)
            f.defaults = [self.ev(d, st, fr) for d in n.args.defaults]
            f.kwdefaults = []
            return mk("static", f)
        if k is ast.JoinedStr:
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(C(v.value))
                else:
                    x = self.ev(v.value, st, fr)
                    if st.dead:
                        return UNDEF
                    spec = "".join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant)) if v.format_spec else ""
                    parts.append(mk("app", "format", self.val(x, st), C(spec), C(v.conversion)))
            return mk("fstr", *parts)
        if k is ast.NamedExpr:
            v = self.ev(n.value, st, fr)
            if not st.dead:
                f = fr
                while f.acc is not None and f.parent is not None:
                    f = f.parent
                self.assign_name(n.target.id, v, st, f)
            return v
        if k is ast.Starred:
            return self.ev(n.value, st, fr)
        if k is ast.Yield:
            v = self.ev(n.value, st, fr) if n.value else NONE
            self.do_yield(v, st, fr)
            return NONE
        return self.lost(st, f"expression {k.__name__}")

    def percent(self, text, b, st):
        """A constant format string applied to a tuple, as the equivalent f-string."""
        pieces = re.split(r"%(#?[0-9]*[sdrxX%])", text)
        if any("%" in x for x in pieces[::2]):
            return None
        args = list(b.a) if b.op == "tuple" else [b]
        parts = []
        for i, x in enumerate(pieces):
            if i % 2 == 0:
                parts.append(C(x))
            elif x == "%":
                parts.append(C("%"))
            elif not args:
                return None
            else:
                conv = -1
                if x[-1] in "sr":
                    if x[:-1]:
                        return None
                    x, conv = "", ord("r") if x == "r" else ord("s")
                parts.append(mk("app", "format", self.val(args.pop(0), st), C("" if x == "d" else x), C(conv)))
        return mk("fstr", *[x for x in parts if x is not C("")]) if not args else None

    def strformat(self, text, args, kwargs, st):
        """A constant format string and its arguments, as the equivalent f-string."""
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            if "{" in (spec or ""):
                return None
            if field == "":
                field, auto = str(auto), auto + 1
            if field.isdigit():
                if int(field) >= len(args):
                    return None
                x = args[int(field)]
            elif field in kwargs:
                x = kwargs[field]
            else:
                return None
            parts.append(mk("app", "format", self.val(x, st), C(spec or ""), C(ord(conv) if conv else -1)))
        return mk("fstr", *parts)

    def ev_list(self, n, st, fr):
        seq = mk("list")
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.as_seq(self.ev(e.value, st, fr), st)
                seq = self.concat(seq, v)
            else:
                v = self.ev(e, st, fr)
                seq = self.append(seq, v)
        return UNDEF if st.dead else self.new_list(st, seq)

    def ev_comp(self, n, st, fr):
        I = _I()
        cf = I.Frame(self._fid(), None, fr.mod, fr, fr.cls)
        cf.self_t = fr.self_t
        cf.acc = ("@acc", None)
        if isinstance(n, ast.DictComp):
            acc = self.alloc("dict")
            st.cells[(acc.a[0], "map")] = mk("dict")
            leaf = ast.Call(ast.Name("@acc", ast.Load()), [n.key, n.value], [])
        elif isinstance(n, ast.SetComp):
            acc = self.new_set(st, mk("set"))
            leaf = ast.Call(ast.Name("@acc", ast.Load()), [n.elt], [])
        else:
            acc = self.new_list(st, mk("list"))
            leaf = ast.Call(ast.Name("@acc", ast.Load()), [n.elt], [])
        cf.acc = ("@acc", acc)
        self.accs = getattr(self, "accs", {})
        self.accs[f"@acc{cf.fid}"] = acc
        body = [ast.Expr(leaf)]
        for i, g in enumerate(reversed(n.generators)):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        for b in body:
            for x in ast.walk(b):
                if not hasattr(x, "lineno"):
                    x.lineno = n.lineno
                    x.col_offset = 0
        s2, exits = self.exec_block(body, st, cf)
        if s2 is None:
            st.dead = True
            return UNDEF
        st.become(s2)
        if isinstance(n, ast.GeneratorExp):
            r = self.alloc("iter")
            st.cells[(r.a[0], "src")] = self.val(acc, st)
            st.cells[(r.a[0], "cur")] = ZERO
            return r
        if self.heap and isinstance(n, ast.DictComp):
            return self.new_dict(st, self.val(acc, st))
        return acc

    # ============================================================== operators
    def binop(self, op, a, b, st) -> T:
        k = type(op)
        if a.op == "ref" or a.op == "path":
            ob = self.objs[a.a[0]] if a.op == "ref" else None
            if ob is not None and ob.kind == "instance":
                dunder = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitAnd: "__and__", ast.BitOr: "__or__"}.get(k)
                f = ob.cls.find(dunder) if dunder else None
                if f is not None:
                    return self.call(mk("bound", a, f), [b], {}, st)
            if k is ast.Add and kind(self.val(a, st)) == "seq":
                return self.new_list(st, self.concat(self.val(a, st), self.as_seq(b, st)))
            if k is ast.Mult and kind(self.val(a, st)) == "seq":
                return self.new_list(st, mk("app", "repeat", self.val(a, st), b))
            a = self.val(a, st)
        b = self.val(b, st)
        a = self.val(a, st)
        if a.op == "undef" or b.op == "undef":
            return UNDEF
        # type unions
        if k is ast.BitOr and (a.op in ("ty",) or b.op in ("ty",) or (a.op in ("static", "bi") and b.op in ("static", "bi", "const"))):
            return mk("ty", TyV(ast.BinOp(self.ty_ast(a), ast.BitOr(), self.ty_ast(b)), self.ty_mod(a, b)))
        if a.op == "ite" and kind(a) is None and (isc(b) or b.op == "ite"):
            return ite(a.a[0], self.binop(op, a.a[1], b, st), self.binop(op, a.a[2], b, st))
        if b.op == "ite" and kind(b) is None and isc(a):
            return ite(b.a[0], self.binop(op, a, b.a[1], st), self.binop(op, a, b.a[2], st))
        if a is NONE or b is NONE and not (k is ast.Mod and kind(a) in ("str", "bytes")):
            # evaluates to a type error
            return mk("pmul", a, b)
        ka, kb = kind(a), kind(b)
        num = ("int", "bool")
        if "float" in (ka, kb) or k is ast.Div:
            if isc(a) and isc(b):
                try:
                    return C(eval("a" + {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}[k] + "b", {"a": cv(a), "b": cv(b)}))
                except Exception:
                    return self.top("constant arithmetic")
            return mk("app", "arith" + k.__name__, a, b)
        if k is ast.Add:
            if "bytes" in (ka, kb):
                return self.bcat(a, b)
            if "str" in (ka, kb):
                if isc(a) and isc(b) and isinstance(cv(a), str) and isinstance(cv(b), str):
                    return C(cv(a) + cv(b))
                return mk("fstr", a, b)
            if ka == "seq" or kb == "seq":
                return self.concat(a, b)
            if ka == "tuple" and kb == "tuple" and a.op == b.op == "tuple":
                return mk("tuple", *a.a, *b.a)
            if ka in num or kb in num:
                return add(a, b)
            return mk("app", "arithAdd", a, b)
        if k is ast.Sub:
            if ka == "set" or kb == "set":
                return mk("app", "sdiff", a, b)
            return sub(a, b)
        if k is ast.Mult:
            if ka in ("bytes", "str", "seq") or kb in ("bytes", "str", "seq"):
                if ka in num:
                    a, b, ka = b, a, kb
                if isc(a) and isc(b) and cv(b) * len(cv(a)) < 70000:
                    return C(cv(a) * cv(b))
                if ka == "bytes":
                    return mk("brep", a, b)
                return mk("app", "repeat", a, b)
            return mul(a, b)
        if k is ast.FloorDiv:
            return fdiv(a, b)
        if k is ast.Mod:
            if isc(a) and isinstance(cv(a), str):
                r = self.percent(cv(a), b, st)
                if r is not None:
                    return r
            if ka in ("bytes", "str"):
                return mk("app", "percent", a, b)
            return mod(a, b)
        if k in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if ka == "set" or kb == "set":
                return mk("sunion", a, b) if k is ast.BitOr else mk("app", "sand", a, b)
            if ka == "map" or kb == "map":
                return self.mupdate(a, b)
            return bitop({ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor"}[k], a, b)
        if k is ast.LShift:
            return shl(a, b)
        if k is ast.RShift:
            return shr(a, b)
        if k is ast.Pow:
            if isc(a) and isc(b):
                return C(cv(a) ** cv(b))
            return mk("pow", a, b)
        return self.top(f"operator {k.__name__}")

    def ty_ast(self, t):
        if t.op == "ty":
            return t.a[0].n
        if t.op == "static" and isinstance(t.a[0], _I().ClassV):
            return ast.Name(t.a[0].name, ast.Load())
        if t.op == "bi":
            return ast.Name(t.a[0].split(".")[-1], ast.Load())
        return ast.Constant(None)

    def ty_set(self, t):
        """The members of a type, taken as a union."""
        out = set()

        def go(n):
            if isinstance(n, ast.BinOp):
                go(n.left)
                go(n.right)
            elif isinstance(n, ast.Subscript) and getattr(n.value, "id", getattr(n.value, "attr", "")) in ("Optional", "Union"):
                if getattr(n.value, "id", getattr(n.value, "attr", "")) == "Optional":
                    out.add("None")
                for x in n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]:
                    go(x)
            else:
                out.add(ast.unparse(n).replace("NoneType", "None"))

        go(self.ty_ast(t))
        return out

    def ty_mod(self, *ts):
        for t in ts:
            if t.op == "ty":
                return t.a[0].mod
            if t.op == "static" and isinstance(t.a[0], _I().ClassV):
                return t.a[0].mod
        return self.callstack[-1][0].mod if self.callstack else next(iter(self.mods.values()))

    def bcat(self, a, b):
        if isc(a) and cv(a) == b"":
            return b
        if isc(b) and cv(b) == b"":
            return a
        if isc(a) and isc(b):
            return C(cv(a) + cv(b))
        return mk("bcat", a, b)

    def cmp(self, op, a, b, st) -> T:
        k = type(op)
        if k in (ast.Is, ast.IsNot):
            if isc(b) and cv(b) is None:
                r = isnone(a) if a.op not in ("ref", "path") else FALSE
            elif isc(a) and cv(a) is None:
                r = isnone(b) if b.op not in ("ref", "path") else FALSE
            elif isc(b) and isinstance(cv(b), bool):
                r = eq(a, b) if kind(a) == "bool" else mk("is", a, b)
            else:
                r = self.is_(a, b)
            return r if k is ast.Is else not_(r)
        if k in (ast.In, ast.NotIn):
            r = self.contains(b, a, st)
            return r if k is ast.In else not_(r)
        if k in (ast.Eq, ast.NotEq):
            r = self.eq_(a, b, st)
            return r if k is ast.Eq else not_(r)
        a, b = self.val(a, st), self.val(b, st)
        if a.op == "undef" or b.op == "undef":
            return UNDEF
        ka, kb = kind(a), kind(b)
        num = ("int", "bool", None)
        if a is NONE or b is NONE or isc(a) and isc(b) and not comparable(cv(a), cv(b)):
            return self.fails(st, "TypeError")
        if ka in num and kb in num:
            return {ast.Lt: lambda: lt(a, b), ast.Gt: lambda: lt(b, a), ast.LtE: lambda: le(a, b), ast.GtE: lambda: le(b, a)}[k]()
        if isc(a) and isc(b):
            x, y = cv(a), cv(b)
            return C({ast.Lt: lambda: x < y, ast.Gt: lambda: x > y, ast.LtE: lambda: x <= y, ast.GtE: lambda: x >= y}[k]())
        f = {ast.Lt: ("lt", a, b), ast.Gt: ("lt", b, a), ast.LtE: ("le", a, b), ast.GtE: ("le", b, a)}[k]
        r = mk("app", "cmp_" + f[0], f[1], f[2])
        self.types[r.id] = ("bool",)
        return r

    def fails(self, st, exc):
        """The operation raises an error on every path that reaches it."""
        if self.raises and not st.dead:
            self.raise_if(st, TRUE, exc, force=True)
        return UNDEF

    def is_(self, a, b):
        if a is b:
            return TRUE
        if a.op == "ite":
            return ite(a.a[0], self.is_(a.a[1], b), self.is_(a.a[2], b))
        if b.op == "ite":
            return ite(b.a[0], self.is_(a, b.a[1]), self.is_(a, b.a[2]))
        st = ("static", "bi", "ref", "enum", "ty")
        if a.op in st and b.op in st:
            if a.op == "ty" and b.op == "ty":
                return C(self.ty_set(a) == self.ty_set(b))
            return FALSE
        return mk("is", *sorted((a, b), key=lambda x: x.id))

    def eq_(self, a, b, st):
        if a.op == "undef" or b.op == "undef":
            return UNDEF
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == "ref" and self.objs[x.a[0]].kind == "instance":
                f = self.objs[x.a[0]].cls.find("__eq__")
                if f is not None:
                    return truth(self.call(mk("bound", x, f), [y], {}, st))
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (kind(x) is None or any(z.op in ("enum", "static", "ref") for z in x.a[1:])):
                return ite(x.a[0], self.eq_(x.a[1], y, st), self.eq_(x.a[2], y, st))
        for x, y in ((a, b), (b, a)):
            if x.op == "enum" and y.op != "enum":
                if isc(y) or kind(y) == "bytes":
                    v = x.a[0].member_values.get(x.a[1])
                    if "bytes" in x.a[0].builtin_bases() and v is not None and isc(v) and isinstance(cv(v), bytes):
                        return eq(v, y)
                    if isc(y):
                        return FALSE
        if a.op in ("static", "bi", "ty") and b.op in ("static", "bi", "ty", "const") or b.op in ("static", "bi", "ty") and isc(a):
            if a.op == "ty" and b.op in ("ty", "static", "bi") or b.op == "ty" and a.op in ("static", "bi"):
                return C(self.ty_set(a) == self.ty_set(b))
            return C(a is b)
        return eq(self.val(a, st), self.val(b, st))

    def contains(self, c, x, st):
        if c.op == "ref" and self.objs[c.a[0]].kind == "instance":
            f = self.objs[c.a[0]].cls.find("__contains__")
            if f is not None:
                return truth(self.call(mk("bound", c, f), [x], {}, st))
        c = self.val(c, st)
        x = self.val(x, st) if not (x.op == "ref") else x
        if c.op in ("tuple", "list", "set"):
            return or_(*[truth(self.eq_(x, y, st)) for y in c.a])
        if c.op == "dict":
            return or_(*[truth(self.eq_(x, y, st)) for y in c.a[::2]])
        if c.op in ("keys", "sorted", "tolist", "reversed"):
            return self.contains(c.a[0], x, st)
        if c.op == "sadd":
            return or_(truth(self.eq_(x, c.a[1], st)), self.contains(c.a[0], x, st))
        if c.op == "range" and kind(x) == "int" and c.a[2] is ONE:
            return and_(le(c.a[0], x), lt(x, c.a[1]))
        if c.op == "ite":
            return ite(c.a[0], self.contains(c.a[1], x, st), self.contains(c.a[2], x, st))
        if c.op == "const" and isinstance(cv(c), (bytes, str)) and isc(x):
            return C(cv(x) in cv(c))
        if c.op == "static" and isinstance(c.a[0], _I().ClassV) and c.a[0].members:
            return or_(*[truth(self.eq_(x, y, st)) for y in c.a[0].members.values()])
        if c.op == "static" and isinstance(c.a[0], CType):
            return or_(*[eq(x, C(y)) for y in c.a[0].members.values()])
        return mk("in", x, c)

    # ============================================================== sequences
    def append(self, s, x):
        if s.op == "list":
            return mk("list", *s.a, x)
        return mk("append", s, x)

    def concat(self, a, b):
        if b.op in ("tuple", "list") and a.op in ("list", "tuple"):
            return mk("list", *a.a, *b.a)
        if b.op in ("tuple", "list") and len(b.a) <= 16:
            for x in b.a:
                a = self.append(a, x)
            return a
        if a.op in ("list", "tuple") and not a.a:
            return b if b.op in tm.SEQ_OPS else mk("tolist", b)
        return mk("concat", a, b)

    def literal_items(self, s):
        if s.op in ("list", "tuple"):
            return list(s.a)
        if s.op == "dict":
            return list(s.a[::2])
        if s.op in ("items", "keys", "values") and s.a[0].op == "dict" and all(isc(x) for x in s.a[0].a[::2]):
            d = s.a[0].a
            if s.op == "items":
                return [mk("tuple", k, v) for k, v in zip(d[::2], d[1::2])]
            return list(d[::2] if s.op == "keys" else d[1::2])
        if s.op == "enumerate":
            x = self.literal_items(s.a[0])
            return None if x is None else [mk("tuple", add(s.a[1], C(i)), v) for i, v in enumerate(x)]
        if s.op == "zip":
            xs = [self.literal_items(y) for y in s.a]
            if any(x is None for x in xs):
                return None
            return [mk("tuple", *r) for r in zip(*xs)]
        if s.op == "reversed":
            x = self.literal_items(s.a[0])
            return None if x is None else x[::-1]
        if s.op == "tolist":
            return self.literal_items(s.a[0])
        if s.op == "const" and isinstance(cv(s), (bytes, str, tuple)) and len(cv(s)) <= 32:
            return [C(x) for x in cv(s)]
        return None

    def as_seq(self, t, st):
        if t.op == "ref":
            o = self.objs[t.a[0]]
            if o.kind == "instance":
                f = o.cls.find("__iter__")
                if f is not None:
                    return self.as_seq(self.call(mk("bound", t, f), [], {}, st), st)
                if o.cls.flavour == "namedtuple":
                    return mk("tuple", *[self.get(st, (t.a[0], n)) for n in o.cls.ann])
            v = self.val(t, st)
            if kind(v) == "map" or o.kind == "dict":
                return self.mview("keys", v)
            return v
        if t.op == "static" and isinstance(t.a[0], _I().ClassV) and t.a[0].members:
            return mk("list", *dict.fromkeys(t.a[0].members.values()))
        if t.op == "path" or self.is_haddr(t):
            return self.as_seq(self.val(t, st), st)
        if t.op == "ite":
            a, b = self.as_seq(t.a[1], st), self.as_seq(t.a[2], st)
            return ite(t.a[0], a, b)
        if kind(t) == "map":
            return self.mview("keys", t)
        if t.op == "carr":
            return t
        return t

    def mview(self, op, m):
        if m.op == "ite":
            return ite(m.a[0], self.mview(op, m.a[1]), self.mview(op, m.a[2]))
        return mk(op, m)

    def elem(self, s, i):
        op = s.op
        if op in ("undef", "top"):
            return s
        if op in ("list", "tuple"):
            if isc(i):
                n = len(s.a)
                j = cv(i)
                if -n <= j < n:
                    return s.a[j]
                return mk("elem", s, i)
            return mk("elem", s, i)
        if op == "range":
            if isc(i) and cv(i) < 0:
                return mk("elem", s, i)
            return add(s.a[0], mul(i, s.a[2]))
        if op == "enumerate":
            return mk("tuple", add(s.a[1], i), self.elem(s.a[0], i))
        if op == "zip":
            return mk("tuple", *[self.elem(x, i) for x in s.a])
        if op == "tolist":
            return self.elem(s.a[0], i)
        if op == "items":
            k = mk("elem", mk("keys", s.a[0]), i)
            v = mk("elem", mk("values", s.a[0]), i)
            return mk("tuple", k, v)
        if op == "sarr":
            ct, src, pos, n = s.a
            if isc(i) and cv(i) < 0:
                i = add(n, i)
            sz = ct.fixed_size()
            if sz is not None:
                return self.cread(ct, src, add(pos, mul(i, C(sz))))[0]
        if op == "append" and isc(i) and cv(i) == -1:
            return s.a[1]
        if op == "ite":
            return ite(s.a[0], self.elem(s.a[1], i), self.elem(s.a[2], i))
        if op == "const" and isc(i):
            try:
                return C(cv(s)[cv(i)])
            except (IndexError, TypeError):
                return mk("elem", s, i)
        if op == "out" and not isinstance(i, int) and s.a[2].op in ("tuple", "list", "sarr", "rec"):
            # index evaluated outside the loop must not mention its variables
            if s.a[0] not in self.fl(i):
                return self.out(s.a[0], s.a[1], self.elem(s.a[2], i))
        if op == "rec":
            I = _I()
            c = s.a[0]
            if isinstance(c, I.ClassV) and c.flavour == "namedtuple" and isc(i):
                return dict(s.a[2]).get(list(c.ann)[cv(i)], UNDEF)
        if kind(s) == "bytes":
            r = mk("int", s, i, 1, "<", False)
            if s.op == "bytes" and not (isc(i) and cv(i) < 0):
                return mk("int", s.a[0], add(s.a[1], i), 1, "<", False)
            return mk("elem", s, i)
        return mk("elem", s, i)

    def slice_(self, s, lo, hi, sp):
        if s.op in ("undef", "top"):
            return s
        if lo.op == "undef" or hi.op == "undef":
            return UNDEF
        lo = ZERO if lo is NONE and sp is NONE else lo
        if lo is ZERO and hi is NONE and sp is NONE:
            return s
        if isc(lo) and isc(hi) and isc(sp):
            if s.op in ("list", "tuple"):
                return mk(s.op, *s.a[slice(cv(lo), cv(hi), cv(sp))])
            if s.op == "const":
                return C(cv(s)[slice(cv(lo), cv(hi), cv(sp))])
            if s.op == "bytes" and isc(s.a[2]) and sp is NONE:
                a, b, _ = slice(cv(lo), cv(hi)).indices(cv(s.a[2]))
                return mk("bytes", s.a[0], add(s.a[1], C(a)), C(max(b - a, 0)))
        if s.op == "ite":
            return ite(s.a[0], self.slice_(s.a[1], lo, hi, sp), self.slice_(s.a[2], lo, hi, sp))
        return mk("slice", s, lo, hi, sp)

    # ============================================================== maps
    def mget(self, m, k, default=None) -> T:
        """default None: KeyError when missing."""
        if m.op in ("undef", "top"):
            return m
        if m.op == "dict":
            ks, vs = m.a[::2], m.a[1::2]
            if all(isc(x) or x.op == "enum" for x in ks) and (isc(k) or k.op == "enum"):
                for x, v in zip(ks, vs):
                    if x is k or isc(x) and isc(k) and cv(x) == cv(k):
                        return v
                if default is not None:
                    return default
                return mk("mget", m, k)
            if any(v.op in ("static", "bi", "ref", "bound", "enum") for v in vs) or all(isc(v) for v in vs) and False:
                # expand a dispatch table into a decision on the key
                groups: dict = {}
                for x, v in zip(ks, vs):
                    groups.setdefault(v, []).append(truth(eq(k, x)))
                r = default if default is not None else mk("mget", m, k)
                for v, cs in reversed(list(groups.items())):
                    r = ite(or_(*cs), v, r)
                return r
        if m.op == "mset":
            if m.a[1] is k:
                return m.a[2]
            e = eq(m.a[1], k)
            if e is FALSE:
                return self.mget(m.a[0], k, default)
            if m.a[2].op == "ref" or (m.a[0].op == "dict" and not m.a[0].a):
                d = self.mget(m.a[0], k, default)
                return ite(truth(e), m.a[2], d)
        if m.op == "ite":
            return ite(m.a[0], self.mget(m.a[1], k, default), self.mget(m.a[2], k, default))
        if default is None:
            return mk("mget", m, k)
        return mk("mgetd", m, k, default)

    def mupdate(self, m, o):
        if o.op == "dict":
            for k, v in zip(o.a[::2], o.a[1::2]):
                m = self.mset(m, k, v)
            return m
        if m.op == "dict" and not m.a:
            return o
        return mk("mupdate", m, o)

    def getitem(self, o, i, st) -> T:
        if o.op == "undef":
            return o
        if o.op == "ite":
            if any(x.op in ("ref", "path", "ite", "tuple", "list") for x in o.a[1:]):
                return self.fork(st, o.a[0], lambda s: self.getitem(o.a[1], i, s), lambda s: self.getitem(o.a[2], i, s))
        if o.op == "static" and isinstance(o.a[0], CType):
            return mk("carr", o.a[0], i)
        if o.op == "static" and isinstance(o.a[0], _I().ClassV):
            c = o.a[0]
            if c.members:
                if isc(i) and cv(i) in c.members:
                    return c.members[cv(i)]
                r = mk("mget", mk("dict", *[y for k, v in c.members.items() for y in (C(k), v)]), i)
                return r
            return o
        if o.op == "bi":
            return o
        if o.op == "ref":
            ob = self.objs[o.a[0]]
            if ob.kind == "instance":
                f = ob.cls.find("__getitem__")
                if f is not None:
                    return self.call(mk("bound", o, f), [i], {}, st)
                if ob.cls.flavour == "namedtuple" and isc(i):
                    return self.get(st, (o.a[0], list(ob.cls.ann)[cv(i)]))
            if ob.kind == "dict" and ob.factory is not None:
                i = self.keyval(i, st)
                cur = self.val(o, st)
                hit = self.mget(cur, i, NONE)
                # a defaultdict lookup inserts the default
                fac = ob.factory
                p = mk("path", o, i, fac)
                d = self.empty_of(fac)
                new = mk("msetd", cur, i, d) if not (hit is not NONE and hit.op == "ref") else cur
                st.cells[(o.a[0], "map")] = new
                tm.MAP_OPS.add("msetd")
                return p if fac != "int" else self.path_get(p, st)
        if o.op == "path" and isinstance(o.a[2], tuple):
            i = self.keyval(i, st)
            base = self.val(o, st)
            tm.MAP_OPS.add("msetd")
            self.path_set(o, mk("msetd", base, i, self.empty_of(o.a[2][1])), st)
            return mk("path", o, i, o.a[2][1])
        if kind(i) == "str":
            self.assume_haddr(o)
        v = self.val(o, st)
        k = kind(v)
        i = self.keyval(i, st)
        if k == "map":
            r = self.mget(v, i)
            if v.op == "dict" and isc(i) and r.op != "mget":
                return r
            pick = v.op == "dict" and bool(v.a) and all(x.op == "ref" for x in v.a[1::2]) and r.op == "ite"
            self.raise_if(st, not_(self.contains(v, i, st)), "KeyError", pick)
            if pick:
                # one of the keys matches from here on
                return self.mget(mk("dict", *v.a[:-2]), i, v.a[-1]) if len(v.a) > 2 else v.a[-1]
            return r
        if k in ("seq", "tuple", "bytes", "str") or isinstance(i, T) and kind(i) == "int":
            r = self.elem(v, i)
            if k in ("seq", "tuple") and r.op == "elem":
                self.raise_if(st, not_(and_(lt(i, length(v)), le(neg(length(v)), i))), "IndexError")
            if k == "str" and r.op == "elem":
                self.types[r.id] = ("str",)
            return r
        if kind(i) in ("str",) or k is None:
            self.raise_if(st, not_(mk("in", i, v)), "KeyError", force=isc(i) and isinstance(cv(i), str) and v.op == "sym")
            return mk("mget", v, i)
        return self.elem(v, i)

    # ============================================================== attributes
    def find_class_attr(self, c, name):
        return c.find(name)

    def getattr_(self, o, name, st) -> T:
        I = _I()
        op = o.op
        if op in ("undef", "top"):
            return o
        if op == "ite":
            return self.fork(st, o.a[0], lambda s: self.getattr_(o.a[1], name, s), lambda s: self.getattr_(o.a[2], name, s))
        if op == "ref":
            oid = o.a[0]
            ob = self.objs[oid]
            v = self.get(st, (oid, name))
            if oid in self.open_objs and (v is not None or ob.cls.find(name) is None):
                return self.top("dynamic setattr")
            if v is not None and not (ob.kind in self.CONTENT or ob.kind == "iter"):
                if v.op == "ite" and v.a[2].op == "undef":
                    pass
                return v
            if ob.kind == "instance":
                r = self.class_member(ob.cls, name, o, st)
                if r is not None:
                    return r
                if name == "__dict__":
                    return self.top("__dict__")
                if name == "__class__":
                    return mk("static", ob.cls)
                if self.lacks(ob.cls, name):
                    return self.fails(st, "AttributeError")
                return mk("bm", o, name)
            return mk("bm", o, name)
        if op == "path" or op == "haddr":
            return mk("bm", o, name)
        hc = self.hobj_cls(o, name)
        if hc is not None:
            r = self.class_member(hc, name, o, st)
            if r is not None:
                return r
            if name == "__class__":
                return mk("static", hc)
            return self.mget(self.hget(self.hp(st), o), C(name))
        if op == "static":
            p = o.a[0]
            if isinstance(p, I.ModV):
                if name in p.env:
                    return p.env[name]
                m = self.module(f"{p.name}.{name}")
                if m:
                    return mk("static", m)
                return self.top(f"missing {p.name}.{name}")
            if isinstance(p, I.ClassV):
                if p.members and name in p.members:
                    return p.members[name]
                v = p.find(name)
                if v is not None:
                    if v.op == "static" and isinstance(v.a[0], I.FuncV):
                        if v.a[0].deco == "classmethod":
                            return mk("bound", o, v)
                    return v
                if name == "__name__":
                    return C(p.name)
                if name == "__members__":
                    return mk("dict", *[y for k, v in p.members.items() for y in (C(k), v)])
                return mk("bm", o, name)
            if isinstance(p, Namespace):
                if name in p.consts:
                    return C(p.consts[name])
                ct = p.resolve(name)
                if ct is not None:
                    return mk("static", ct)
                return mk("bm", o, name)
            if isinstance(p, CType):
                if p.members and name in p.members:
                    return C(p.members[name])
                if name == "__name__":
                    return C(p.name)
                if name == "size":
                    s = p.fixed_size()
                    return C(s) if s is not None else NONE
                return mk("bm", o, name)
            if isinstance(p, I.FuncV):
                if name == "__name__":
                    return C(p.name)
                return mk("bm", o, name)
        if op == "bi":
            if o.a[0].startswith("@log"):
                return mk("bi", "@log.x")
            return mk("bi", f"{o.a[0]}.{name}")
        if op == "struct":
            r = self.field(o, name)
            if r is not None:
                return r
            return mk("bm", o, name)
        if op == "rec":
            xh = self.get(st, ("xheap", 0))
            if xh is not None and self.xmay(xh, name):
                return self.xget(xh, o, name)
            d = dict(o.a[2])
            if name in d:
                return d[name]
            if isinstance(o.a[0], I.ClassV):
                r = self.class_member(o.a[0], name, o, st)
                if r is not None:
                    return r
            return mk("bm", o, name)
        if op == "rangeh":
            if name == "size":
                return o.a[2]
            return mk("bm", o, name)
        if op == "exc":
            if name == "__class__":
                return mk("app", "class", o)
            return mk("app", "exc." + name, o)
        if op == "enum":
            if name == "value":
                return o.a[0].member_values.get(o.a[1], mk("app", "enumvalue", o))
            if name == "name":
                return C(o.a[1])
            r = self.class_member(o.a[0], name, o, st)
            if r is not None:
                return r
            return mk("bm", o, name)
        if op == "out":
            inner = o.a[2]
            if inner.op in ("rec", "struct", "ite", "tuple"):
                # resolve inside the loop result when that is a plain field
                if inner.op == "rec" and name in dict(inner.a[2]) and self.get(st, ("xheap", 0)) is None:
                    return self.out(o.a[0], o.a[1], dict(inner.a[2])[name])
                if inner.op == "struct":
                    r = self.field(inner, name)
                    if r is not None:
                        return self.out(o.a[0], o.a[1], r)
        if op == "bound" and name == "__self__":
            return o.a[0]
        if op in ("bound", "bm", "app") and name in ("cache_clear", "cache_info", "__name__"):
            return mk("bi", "@log.x")
        k = kind(o)
        if k == "int" and name in ("value", "real"):
            return o
        if k == "int" and name == "name":
            return mk("app", "enumname", o)
        if k in ("int", "bool", "bytes", "str", "seq", "map", "set", "tuple", "float"):
            return mk("bm", o, name)
        # opaque object
        ty = self.strip_none(self.type_of(o))
        if ty and ty[0] == "struct":
            ct = ty[1]
            if any(self._has_field(ct, name) for _ in (0,)):
                return self.xattr(o, name, st)
            return mk("bm", o, name)
        if ty and ty[0] == "union":
            cl = [x[1] for x in ty[1] if x[0] == "cls"]
            for c in cl:
                f = c.find(name)
                if f is not None and f.op == "static" and isinstance(f.a[0], I.FuncV):
                    # dynamic dispatch over the possible classes
                    fs = [(c2, c2.find(name)) for c2 in cl]
                    if all(x[1] is f for x in fs):
                        return self.class_member(c, name, o, st)
                    return mk("bm", o, name)
        c = ty[1] if ty and ty[0] == "cls" else None
        if c is not None:
            r = self.class_member(c, name, o, st)
            if r is not None:
                declared = any(name in k.ann for k in c.mro())
                if not declared or r.op in ("bound",):
                    return r
            if ty == ("cls", c) and any(b in I.STREAM_STUBS for b in c.builtin_bases()) and name in I.STREAM_METHODS:
                return mk("bm", o, name)
        if name in I.STREAM_METHODS and not (c is not None and name in getattr(c, "_init_ann", {})):
            return mk("bm", o, name)
        if c is not None and (sub := self.only_in(c, name)) is not None:
            r = self.class_member(sub, name, o, st)
            if r is not None:
                return r
        if ty and ty[0] == "stream":
            if name == "size":
                # an arbitrary stream need not know its size
                return self.typed(mk("sattr", o), ("union", (("int",), ("none",))))
            return mk("bm", o, name)
        return self.xattr(o, name, st)

    def _has_field(self, ct, name):
        for fn, fct, dims in ct.fields:
            if fn == name:
                return True
            if fn is None and self._has_field(fct, name):
                return True
        return False

    def xattr(self, o, name, st):
        xh = self.get(st, ("xheap", 0))
        if xh is None or xh.op == "xempty":
            return mk("attr", o, name)
        return self.xget(xh, o, name)

    def xmay(self, xh, name):
        """May the write log contain this attribute?"""
        names = self.xnames(xh, set())
        return names is None or name in names

    def xnames(self, h, seen):
        """Attribute names a write log can contain; None when a loop it depends on is not complete yet."""
        out = set()
        todo = [h]
        while todo:
            x = todo.pop()
            if x.id in seen or x.op in ("xempty", "undef"):
                continue
            seen.add(x.id)
            if x.op == "xset":
                out.add(x.a[2])
                todo.append(x.a[0])
            elif x.op == "ite":
                todo += x.a[1:]
            elif x.op == "out":
                todo.append(x.a[2])
            elif x.op == "lv":
                L = self.loops.get(x.a[0])
                if L is None or x.a[1] >= len(L.nexts) or L.nexts[x.a[1]] is None:
                    return None
                todo += [L.inits[x.a[1]], L.nexts[x.a[1]]]
            else:
                return None
        return out

    def xget(self, xh, o, name):
        if not self.xmay(xh, name):
            if o.op == "rec" and name in dict(o.a[2]):
                return dict(o.a[2])[name]
            return mk("attr", o, name)
        h = xh
        while h.op == "xset":
            if h.a[2] == name:
                if h.a[1] is o:
                    return h.a[3]
                break
            h = h.a[0]
        if h.op == "xempty":
            if o.op == "rec":
                d = dict(o.a[2])
                if name in d:
                    return d[name]
            return mk("attr", o, name)
        return mk("xget", h, o, name)

    def lacks(self, c, name):
        """Whether an instance that was not given the attribute has none of that name."""
        if name[:2] == "__" or name in self.stray or any(b.op not in ("bi", "static") for k in c.mro() for b in k.bases):
            return False
        if any(c.find(f) is not None for f in ("__getattr__", "__getattribute__", "__setattr__")):
            return False
        for b in c.builtin_bases():
            if b.endswith(".AlignedStream"):
                if name in STREAM_ATTRS:
                    return False
            elif b != "object":
                return False
        return c.flavour not in ("enum", "namedtuple")

    def only_in(self, c, name):
        """The one class below this one that has a method of that name, when the class itself has nothing of that name."""
        I = _I()
        if any(name in k.ann or name in k.ns for k in c.mro()):
            return None
        if any(isinstance(n, ast.Attribute) and n.attr == name and not isinstance(n.ctx, ast.Load) for k in c.mro() for n in ast.walk(k.node)):
            return None
        found = [v.a[0] for m in self.mods.values() for v in m.env.values()
                 if v.op == "static" and isinstance(v.a[0], I.ClassV) and v.a[0] is not c and c in v.a[0].mro()
                 and (name in v.a[0].ns or name in v.a[0].ann)]
        found = list(dict.fromkeys(found))
        top = [k for k in found if not any(o is not k and o in k.mro() for o in found)]
        if len(top) == 1 and len(found) == 1 and top[0].ns.get(name) is not None:
            f = top[0].ns[name]
            if f.op == "static" and isinstance(f.a[0], I.FuncV):
                return top[0]
        return None

    def class_member(self, c, name, self_t, st):
        """Resolve a class-level member for an instance; None when the class has none."""
        I = _I()
        v = c.find(name)
        if v is None:
            return None
        if v.op == "static" and isinstance(v.a[0], I.FuncV):
            f = v.a[0]
            if f.deco == "property":
                if f.cached and self.memo and self_t.op == "ref":
                    return self.memoised(f, self_t, st)
                return self.call_func(f, [self_t], {}, st)
            if f.deco == "staticmethod":
                return v
            if f.deco == "classmethod":
                return mk("bound", mk("static", c), v)
            return mk("bound", self_t, v)
        return v

    def memoised(self, f, self_t, st):
        """A cached property: the first access computes it, later ones find what it has become."""
        oid = self_t.a[0]
        flag, slot = (oid, "@" + f.name), (oid, "#" + f.name)

        def known(t):
            if t.op == "ite":
                return ite(t.a[0], known(t.a[1]), known(t.a[2]))
            return t if t in (TRUE, FALSE) or t.op not in ("undef", "const") else FALSE

        def compute(s):
            v = self.call_func(f, [self_t], {}, s)
            if not s.dead:
                s.cells[flag], s.cells[slot] = TRUE, v
            return v
        return self.fork(st, known(st.cells.get(flag, FALSE)), lambda s: s.cells[slot], compute)

    # ============================================================== structures
    def field(self, s: T, name) -> T | None:
        """Field of a structure term, with offsets resolved through earlier dynamic fields."""
        ct, src, pos = s.a
        off = pos
        env = {}
        return self._field(ct, src, pos, name, {})

    def _field(self, ct, src, pos, name, env):
        off = pos
        local = dict(env)
        for fn, fct, dims in ct.fields:
            if fn is None:
                r = self._field(fct, src, off, name, local)
                if r is not None:
                    return r
                sz = self.csize(fct, src, off, local)
            else:
                v, sz = self.cfield(fct, dims, src, off, ct, local)
                if fn == name:
                    return v
                local[fn] = v
            if ct.kind != "union":
                off = add(off, sz)
        return None

    def csize(self, ct, src, pos, env=None):
        s = ct.fixed_size()
        if s is not None:
            return C(s)
        off = pos
        local = dict(env or {})
        mx = ZERO
        for fn, fct, dims in ct.fields:
            v, sz = self.cfield(fct, dims, src, off, ct, local)
            if fn:
                local[fn] = v
            if ct.kind != "union":
                off = add(off, sz)
        return sub(off, pos)

    def cfield(self, fct, dims, src, off, owner, env):
        if not dims:
            return self.cread(fct, src, off)
        n = self.dim(dims[0], owner, env)
        if n is None:
            return self.null_array(fct, src, off)
        for d in dims[1:]:
            n = mul(n, self.dim(d, owner, env))
        return self.carray(fct, n, src, off)

    def null_array(self, fct, src, off):
        if fct.kind in ("char", "wchar"):
            r = mk("cstr", fct, src, off)
            return r, add(mk("len", r), C(fct.size))
        r = mk("zarr", fct, src, off)
        sz = fct.fixed_size()
        return r, mul(add(mk("len", r), ONE), C(sz or 1))

    def carray(self, fct, n, src, off):
        if fct.kind == "char":
            return self.rd(src, off, n), n
        if fct.kind == "wchar":
            nb = mul(n, C(2))
            r = mk("app", "decode", self.rd(src, off, nb), C("utf-16-le" if fct.ns.endian == "<" else "utf-16-be"))
            self.types[r.id] = ("str",)
            return r, nb
        sz = fct.fixed_size()
        if sz is None:
            return self.top("array of dynamic structures"), ZERO
        return mk("sarr", fct, src, off, n), mul(n, C(sz))

    def rd(self, src, off, n):
        """n bytes of a source (stream handle or byte value) at an offset."""
        if src.op == "bytes":
            return mk("bytes", src.a[0], add(src.a[1], off), n)
        if self.is_bytes(src):
            return self.slice_(src, off, add(off, n), NONE)
        return mk("bytes", src, off, n)

    def is_bytes(self, t):
        if kind(t) == "bytes":
            return True
        ty = self.type_of(t)
        return bool(ty) and ty[0] == "union" and self.strip_none(ty) == ("bytes",)

    def cread(self, ct, src, off):
        """-> (value, size)"""
        if ct.kind in ("int", "enum"):
            if src.op == "bytes":
                return mk("int", src.a[0], add(src.a[1], off), ct.size, ct.ns.endian, ct.signed), C(ct.size)
            return mk("int", src, off, ct.size, ct.ns.endian, ct.signed), C(ct.size)
        if ct.kind == "char":
            return self.rd(src, off, ONE), ONE
        if ct.kind == "wchar":
            return self.carray(ct, ONE, src, off)
        if ct.kind in ("struct", "union"):
            if src.op == "bytes":
                src, off = src.a[0], add(src.a[1], off)
            s = mk("struct", ct, src, off)
            return s, self.csize(ct, src, off)
        if ct.kind == "float":
            return mk("app", "float", self.rd(src, off, C(ct.size))), C(ct.size)
        return self.top("ctype"), ZERO

    def dim(self, d, owner, env):
        if d is None or isinstance(d, ast.Constant) and d.value is None or isinstance(d, ast.Name) and d.id in ("None", "NULL"):
            return None
        n = owner.ns.const_dim(d, owner)
        if n is not None:
            return C(n)
        return self._dim(d, owner, env)

    def _dim(self, e, owner, env):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in owner.ns.consts:
                return C(owner.ns.consts[e.id])
        if isinstance(e, ast.BinOp):
            a, b = self._dim(e.left, owner, env), self._dim(e.right, owner, env)
            from .interp import State

            return self.binop(e.op, a, b, State())
        return self.top("array dimension")

    def cload(self, ct_t, arg, st) -> T:
        """Call of a structure type on a stream or a buffer."""
        if ct_t.op == "carr":
            ct, n = ct_t.a
        else:
            ct, n = ct_t.a[0], "one"
        if arg.op == "ite" and not self.is_bytes(self.val(arg, st)):
            return self.fork(st, arg.a[0], lambda s: self.cload(ct_t, arg.a[1], s), lambda s: self.cload(ct_t, arg.a[2], s))
        buf = self.val(arg, st)
        if arg.op == "ref" and self.objs[arg.a[0]].kind == "bio":
            src, pos = self.get(st, (arg.a[0], "buf")), self.get(st, ("pos", arg)) or ZERO
            stream = True
        elif self.is_bytes(buf):
            src, pos, stream = buf, ZERO, False
        elif kind(buf) == "int":
            if ct.kind in ("enum", "int"):
                return buf
            return self.top("ctype of int")
        else:
            src, pos, stream = arg, self.pos(arg, st), True
            self.note_read(st, src, pos)
        if n == "one":
            v, sz = self.cread(ct, src, pos)
        elif n is NONE:
            v, sz = self.null_array(ct, src, pos)
        else:
            v, sz = self.carray(ct, n, src, pos)
        if stream:
            st.cells[("pos", arg)] = add(pos, sz)
        return v

    def note_read(self, st, h, pos):
        self.stats["reads"] += 1
        self.read_sites.add(self.where())

    def pos(self, h, st):
        p = self.get(st, ("pos", h))
        if p is None:
            p = mk("pos0", h)
            if h.op == "ref" and self.objs[h.a[0]].kind in ("bio", "instance"):
                p = ZERO
            if h.op == "rangeh":
                p = ZERO
        return p

    # ============================================================== calls
    def ev_call(self, n, st, fr):
        I = _I()
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) \
                and n.func.value.func.id == "super":
            return self.super_call(n, st, fr)
        f = self.ev(n.func, st, fr)
        if st.dead:
            return UNDEF
        if f.op == "bi" and (f.a[0].startswith("@log") or f.a[0] in NOOP):
            return NONE
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.as_seq(self.ev(a.value, st, fr), st)
                items = self.literal_items(s)
                if items is None:
                    if f.op == "bi":
                        args.append(mk("star", s))
                        continue
                    k = self.star_len(f, s, n, len(args))
                    if k is None:
                        return self.lost(st, "star call")
                    items = [self.elem(s, C(i)) for i in range(k)]
                args += items
            else:
                args.append(self.ev(a, st, fr))
                if st.dead:
                    return UNDEF
        for kw in n.keywords:
            v = self.ev(kw.value, st, fr)
            if st.dead:
                return UNDEF
            if kw.arg is None:
                m = self.val(v, st)
                if m.op == "dict" and all(isc(x) for x in m.a[::2]):
                    for k, x in zip(m.a[::2], m.a[1::2]):
                        kwargs[cv(k)] = x
                else:
                    more = self.spread(f, m, len(args), [k.arg for k in n.keywords], st)
                    if more is None:
                        return self.lost(st, "** call")
                    kwargs.update(more)
            else:
                kwargs[kw.arg] = v
        self.node = n
        return self.call(f, args, kwargs, st, n, fr)

    def star_len(self, f, s, n, given):
        """How many arguments a starred sequence of unknown content stands for: the parameters that are still to be filled."""
        I = _I()
        ty = self.type_of(s)
        if ty and ty[0] == "tuple":
            return len(ty[1])
        if sum(isinstance(a, ast.Starred) for a in n.args) > 1 or any(k.arg is None for k in n.keywords):
            return None
        after = len(n.args) - 1 - next(i for i, a in enumerate(n.args) if isinstance(a, ast.Starred))
        named = len(n.keywords)
        if f.op == "bound":
            f, given = f.a[1], given + 1
        if f.op != "static":
            return None
        p = f.a[0]
        if isinstance(p, I.ClassV):
            if p.flavour == "namedtuple" or p.dataclass is not None and p.find("__init__") is None:
                names = [x for k in reversed(p.mro()) for x in k.ann]
                if any(x in k.ns for k in p.mro() for x in k.ann):
                    return None
                return max(len(names) - given - after - named, 0)
            m = p.find("__init__")
            if m is None or m.op != "static":
                return None
            p, given = m.a[0], given + 1
        if not isinstance(p, I.FuncV) or p.node.args.vararg is not None or p.node.args.defaults:
            return None
        a = p.node.args
        k = len(a.posonlyargs) + len(a.args) - given - after - sum(kw.arg not in [x.arg for x in a.kwonlyargs] for kw in n.keywords)
        return k if k >= 0 else None

    def spread(self, f, m, given, named, st):
        """The keyword arguments a mapping of unknown content stands for, by the parameters of the function it is passed to."""
        I = _I()
        if f.op == "bound":
            f, given = f.a[1], given + 1
        if f.op != "static":
            return None
        p = f.a[0]
        if isinstance(p, I.ClassV):
            if p.flavour == "namedtuple" or p.dataclass is not None and p.find("__init__") is None:
                names = [x for k in reversed(p.mro()) for x in k.ann]
                defaults = {x: k.ns[x] for k in reversed(p.mro()) for x in k.ann if x in k.ns}
                out = {}
                for x in names[given:]:
                    if x not in named:
                        v = self.mget(m, C(x))
                        d = defaults.get(x)
                        if d is not None and d.op == "app" and d.a[0] == "dataclasses.field":
                            d = self.field_default(d, st)
                        out[x] = v if d is None else ite(self.contains(m, C(x), st), v, d)
                return out
            i = p.find("__init__")
            if i is None or i.op != "static":
                return None
            p, given = i.a[0], given + 1
        if not isinstance(p, I.FuncV) or p.node.args.kwarg is not None or p.defaults is None:
            return None
        a = p.node.args
        pos = [x.arg for x in a.args]
        d = dict(zip(pos[::-1], p.defaults[::-1]))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, p.kwdefaults or []) if v is not None})
        out = {}
        for x in [*pos[max(given - len(a.posonlyargs), 0):], *[y.arg for y in a.kwonlyargs]]:
            if x not in named:
                v = self.mget(m, C(x))
                out[x] = ite(self.contains(m, C(x), st), v, d[x]) if x in d else v
        return out

    def super_call(self, n, st, fr):
        I = _I()
        sc = n.func.value
        name = n.func.attr
        args = [self.ev(a, st, fr) for a in n.args if not isinstance(a, ast.Starred)]
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = self.literal_items(self.as_seq(self.ev(a.value, st, fr), st))
                if items is None:
                    return self.lost(st, "star call")
                args += items
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                m = self.val(v, st)
                if m.op == "dict":
                    for a, x in zip(m.a[::2], m.a[1::2]):
                        kwargs[cv(a)] = x
            else:
                kwargs[k.arg] = v
        if st.dead:
            return UNDEF
        f = fr
        while f.func is None and f.parent is not None:
            f = f.parent
        if sc.args:
            cls = self.ev(sc.args[0], st, fr)
            me = self.ev(sc.args[1], st, fr)
            start = cls.a[0] if cls.op == "static" else None
        else:
            start, me = f.cls, f.self_t
        if start is None or me is None:
            return self.lost(st, "super")
        return self.super_dispatch(start, me, name, args, kwargs, st, n, fr)

    def super_dispatch(self, start, me, name, args, kwargs, st, n, fr):
        I = _I()
        if me.op == "ite":
            return self.fork(st, me.a[0], lambda s: self.super_dispatch(start, me.a[1], name, args, kwargs, s, n, fr),
                             lambda s: self.super_dispatch(start, me.a[2], name, args, kwargs, s, n, fr))
        if me.op == "static" and isinstance(me.a[0], I.ClassV):
            own = me.a[0]
        elif me.op == "ref":
            own = self.objs[me.a[0]].cls
        else:
            own = self.cls_of(me)
        mro = own.mro() if own is not None else start.mro()
        after = mro[mro.index(start) + 1:] if start in mro else []
        for c in after:
            if name in c.ns:
                v = c.ns[name]
                if v.op == "static" and isinstance(v.a[0], I.FuncV):
                    if v.a[0].deco == "staticmethod":
                        return self.call(v, args, kwargs, st, n, fr)
                    return self.call(mk("bound", me, v), args, kwargs, st, n, fr)
        # builtin base
        bb = [b for c in [start, *after] for b in [x.a[0] for x in c.bases if x.op == "bi"]]
        if name == "__init__":
            for b in bb:
                if b in I.STREAM_STUBS:
                    self.stream_init(b, me, args, kwargs, st)
            return NONE
        if name == "__new__" :
            return self.top("super().__new__")
        return self.stub_method(me, name, args, kwargs, st)

    def stream_init(self, b, me, args, kwargs, st):
        names = {"dissect.util.stream.AlignedStream": ["size", "align"],
                 "dissect.util.stream.MappingStream": ["size", "align"],
                 "dissect.util.stream.RunlistStream": ["_fh", "runlist", "size", "block_size", "align"],
                 }.get(b, [])
        vals = dict(zip(names, args))
        vals.update(kwargs)
        if b.endswith(".MappingStream"):
            st.cells[(me.a[0], "@runs")] = mk("list")
            vals.setdefault("size", NONE)
        if b.endswith(".AlignedStream"):
            vals.setdefault("size", NONE)
            vals.setdefault("align", C(8192))
        if me.op == "ref":
            for k, v in vals.items():
                st.cells[(me.a[0], k)] = v
            st.cells[("pos", me)] = ZERO

    def call(self, f, args, kwargs, st, n=None, fr=None) -> T:
        I = _I()
        op = f.op
        if op == "undef":
            return f
        if st.dead:
            return UNDEF
        if op == "top":
            self.lost(st, "call of an unknown function")
            return f
        if op == "ite":
            return self.fork(st, f.a[0], lambda s: self.call(f.a[1], args, kwargs, s, n, fr),
                             lambda s: self.call(f.a[2], args, kwargs, s, n, fr))
        if op == "static":
            p = f.a[0]
            if isinstance(p, I.FuncV):
                return self.call_func(p, args, kwargs, st)
            if isinstance(p, I.ClassV):
                return self.construct(p, f, args, kwargs, st)
            if isinstance(p, CType):
                return self.cload(f, args[0], st) if args else self.cdefault(p)
            return self.lost(st, "call of " + type(p).__name__)
        if op == "carr":
            return self.cload(f, args[0], st)
        if op == "bound":
            if f.a[1].op == "static" and isinstance(f.a[1].a[0], I.FuncV):
                return self.call_func(f.a[1].a[0], [f.a[0], *args], kwargs, st)
            return self.call(f.a[1], [f.a[0], *args], kwargs, st, n, fr)
        if op == "bi":
            return self.builtin(f.a[0], args, kwargs, st, n, fr)
        if op == "bm":
            recv = n.func.value if n is not None and isinstance(n.func, ast.Attribute) else None
            return self.method(f.a[0], f.a[1], args, kwargs, st, recv, fr)
        if op == "ref" and self.objs[f.a[0]].kind == "instance":
            m = self.objs[f.a[0]].cls.find("__call__")
            if m is not None:
                return self.call(mk("bound", f, m), args, kwargs, st, n, fr)
        if op == "app" and f.a[0] == "itemgetter":
            xs = [self.getitem(args[0], k, st) for k in f.a[1:]]
            return xs[0] if len(xs) == 1 else mk("tuple", *xs)
        if op == "app" and f.a[0] == "attrgetter":
            xs = []
            for k in f.a[1:]:
                v = args[0]
                for part in cv(k).split("."):
                    v = self.getattr_(v, part, st)
                xs.append(v)
            return xs[0] if len(xs) == 1 else mk("tuple", *xs)
        if op == "app" and f.a[0] == "methodcaller":
            return self.call(self.getattr_(args[0], cv(f.a[1]), st), list(f.a[2:]), {}, st)
        if op == "app" and f.a[0] == "partial":
            return self.call(f.a[1], [*f.a[2:], *args], kwargs, st, n, fr)
        if op == "attr" and f.a[0].op == "app" and f.a[0].a[0] in ("re", "Struct"):
            return self.method(f.a[0], f.a[1], args, kwargs, st, None, fr)
        if op == "attr" and f.a[1] in STR_RET and f.a[1] not in ("index", "count", "find") and not (self.type_of(f.a[0]) or ("",))[0] == "cls":
            return self.method(f.a[0], f.a[1], args, kwargs, st, None, fr)
        if op == "attr" and self.is_haddr(f.a[0]):
            return self.method(f.a[0], f.a[1], args, kwargs, st, None, fr)
        if op == "attr" and f.a[1] in ("append", "extend", "insert", "add", "update", "setdefault", "remove", "discard", "clear"):
            recv = n.func.value if n is not None and isinstance(n.func, ast.Attribute) else None
            return self.method(f.a[0], f.a[1], args, kwargs, st, recv, fr)
        if op == "attr":
            return mk("app", "method:" + f.a[1], f.a[0], *[self.val(a, st) for a in args], *[self.val(v, st) for v in kwargs.values()])
        return mk("app", "callv", f, *[self.val(a, st) for a in args])

    def cdefault(self, ct):
        return mk("struct", ct, C(b"\0" * (ct.fixed_size() or 0)), ZERO)

    # -- construction
    def construct(self, c, ct, args, kwargs, st):
        I = _I()
        qn = f"{c.mod.name}.{c.name}"
        if c.flavour in ("enum", "intenum"):
            return self.enum_call(c, args[0], st)
        bb = c.builtin_bases()
        if any(b in I.EXC_PARENT or b.endswith("Exception") or b.endswith("Error") for b in bb):
            return mk("exc", c)
        if c.flavour == "typeddict":
            m = mk("dict")
            for k, v in kwargs.items():
                m = self.mset(m, C(k), v)
            return self.new_dict(st, m)
        if qn in self.cut:
            return self.cut_new(c, args, kwargs, st)
        if self.heap and qn in self.hobj_names:
            o = self.new_hobj(c, st)
            f = c.find("__init__")
            if f is not None:
                self.call_func(f.a[0], [o, *args], kwargs, st)
            return o if not st.dead else UNDEF
        o = self.alloc("instance", c)
        oid = o.a[0]
        for b in bb:
            if b in I.STREAM_STUBS:
                st.cells[("pos", o)] = ZERO
                if b.endswith(".MappingStream"):
                    st.cells[(oid, "@runs")] = mk("list")
        if c.flavour == "namedtuple" or c.dataclass is not None and c.dataclass.get("init", True) and c.find("__init__") is None:
            names, defaults = [], {}
            for k in reversed(c.mro()):
                if k.dataclass is not None or c.flavour == "namedtuple":
                    for nme in k.ann:
                        if nme not in names:
                            names.append(nme)
                        if nme in k.ns:
                            defaults[nme] = k.ns[nme]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for nme in names:
                v = vals.get(nme)
                if v is None:
                    v = defaults.get(nme, UNDEF)
                    if v.op == "app" and v.a[0] == "dataclasses.field":
                        v = self.field_default(v, st)
                st.cells[(oid, nme)] = v
            f = c.find("__post_init__")
            if f is not None:
                self.call(mk("bound", o, f), [], {}, st)
            return o
        f = c.find("__init__")
        if f is not None:
            self.call_func(f.a[0], [o, *args], kwargs, st)
            return o if not st.dead else UNDEF
        for b in bb:
            if b in I.STREAM_STUBS:
                self.stream_init(b, o, args, kwargs, st)
        return o

    def field_default(self, v, st):
        fac = v.a[1]
        if fac.op == "bi" and fac.a[0] == "list":
            return self.new_list(st, mk("list"))
        if fac.op == "bi" and fac.a[0] == "dict":
            return self.new_dict(st, mk("dict"))
        if fac.op == "bi" and fac.a[0] == "set":
            return self.new_set(st, mk("set"))
        return fac

    def cut_new(self, c, args, kwargs, st):
        """An object of a class analysed elsewhere: opaque, may refuse its input."""
        f = c.find("__init__")
        vals = list(args)
        if f is not None:
            a = f.a[0].node.args
            names = [p.arg for p in a.args][1:]
            d = dict(zip(names, args))
            d.update(kwargs)
            defaults = dict(zip(names[::-1], (f.a[0].defaults or [])[::-1]))
            vals = [d.get(nm, defaults.get(nm, NONE)) for nm in names]
        # the object that makes another one is known by its class only
        vals = [self.val(v, st) if v.op != "ref" else mk("owner", self.objs[v.a[0]].cls.name) if self.objs[v.a[0]].kind == "instance"
                and not self.objs[v.a[0]].cls.builtin_bases() else v for v in vals]
        posn = []

        def streamish(v):
            return v.op == "rangeh" or v.op != "ref" and self.type_of(v) == ("stream",) or v.op == "ite" and (streamish(v.a[1]) or streamish(v.a[2]))

        def posof(v):
            if v.op == "ite":
                return ite(v.a[0], posof(v.a[1]), posof(v.a[2]))
            return self.pos(v, st) if streamish(v) else NONE

        def moved(v, cond):
            if v.op == "ite":
                moved(v.a[1], and_(cond, v.a[0]))
                moved(v.a[2], and_(cond, not_(v.a[0])))
            elif streamish(v):
                st.cells[("pos", v)] = ite(cond, mk("app", "posafter", v, C(c.name)), self.pos(v, st))

        for v in vals:
            if streamish(v):
                posn.append(posof(v))
                moved(v, TRUE)
        t = mk("new", c, mk("tuple", *vals, *posn))
        r = mk("raises", t)
        self.raise_if(st, r, "<cut>", force=True)
        if not st.dead:
            for name, v in self.plain_attributes(c):
                self.setattr_(t, name, v, st)
        return t

    def plain_attributes(self, c):
        """Attributes that the constructor only ever sets to one constant."""
        f = c.find("__init__")
        if f is None or id(c) in self.plain_memo:
            return self.plain_memo.get(id(c), [])
        node = f.a[0].node
        me = node.args.args[0].arg
        seen: dict = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                seen[x.attr] = seen.get(x.attr, 0) + 1
        out = []
        for x in node.body:
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and len(x.targets) == 1:
                t = x.targets[0]
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and seen[t.attr] == 1:
                    out.append((t.attr, C(x.value.value) if x.value.value is not None else NONE))
        self.plain_memo[id(c)] = out
        return out

    def enum_call(self, c, v, st):
        if v.op == "ite":
            return ite(v.a[0], self.enum_call(c, v.a[1], st), self.enum_call(c, v.a[2], st))
        v = self.val(v, st)
        if c.flavour == "intenum":
            vals = list(dict.fromkeys(c.members.values()))
            ok = or_(*[truth(eq(v, x)) for x in vals])
            self.raise_if(st, not_(ok), "ValueError", force=True)
            return v
        if v.op == "enum" and v.a[0] is c:
            return v
        miss = c.find("_missing_")
        if miss is not None:
            r = self.call(mk("bound", mk("static", c), miss), [v], {}, st)
        else:
            ok = or_(*[truth(eq(v, x)) for x in c.member_values.values()])
            self.raise_if(st, not_(ok), "ValueError", force=True)
            r = UNDEF
        for name, raw in reversed(list(c.member_values.items())):
            e = eq(v, raw)
            r = ite(truth(e), c.members[name], r)
        return r


from .builtins_ import BuiltinMixin  # noqa: E402


class ExprMixin(BuiltinMixin, ExprMixin):  # noqa: F811
    pass
