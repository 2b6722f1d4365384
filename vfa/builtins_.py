"""Models of builtins, standard-library calls and stream classes used by the analysed program."""
from __future__ import annotations

import ast
import struct as _struct
import uuid as _uuid

from . import terms as tm
from .cdef import CDefError, CType, Namespace
from .terms import (C, FALSE, NONE, ONE, TRUE, T, UNDEF, ZERO, add, and_, cv, eq, fdiv, gt0, isc, isnone, ite, kind, le, length,
                    lt, mk, mod, mul, neg, not_, or_, sub, truth)

for _op in ("brep", "fromint"):
    pass

STR_RET = {
    "strip": "same", "lstrip": "same", "rstrip": "same", "lower": "same", "upper": "same", "replace": "same", "title": "same",
    "ljust": "same", "rjust": "same", "zfill": "same", "removeprefix": "same", "removesuffix": "same", "join": "same",
    "capitalize": "same", "casefold": "same", "translate": "same", "expandtabs": "same", "center": "same", "swapcase": "same",
    "split": "list", "rsplit": "list", "splitlines": "list", "partition": "tuple3", "rpartition": "tuple3",
    "startswith": "bool", "endswith": "bool", "isdigit": "bool", "isalpha": "bool", "isspace": "bool", "isalnum": "bool",
    "isupper": "bool", "islower": "bool", "isascii": "bool", "isnumeric": "bool", "isdecimal": "bool", "isidentifier": "bool",
    "find": "int", "rfind": "int", "index": "int", "rindex": "int", "count": "int", "decode": "str", "encode": "bytes",
    "hex": "str", "format": "str", "tobytes": "bytes", "fromhex": "bytes",
}


class BuiltinMixin:
    def typed(self, t, ty):
        if ty is not None and t.op not in ("const", "static"):
            self.types.setdefault(t.id, ty)
        return t

    def lam(self, f, st, *types):
        """A function value as a term: formal variables and body."""
        self.n_misc += 1
        bvs = []
        for i, ty in enumerate(types):
            b = mk("bv", (self.n_misc, i))
            if ty is not None:
                self.types[b.id] = ty
            bvs.append(b)
        s = st.copy()
        self.raises.append([])
        saved = self.trystack
        self.trystack = []
        r = self.call(f, bvs, {}, s)
        self.trystack = saved
        self.raises.pop()
        r = self.freeze(self.val(r, s), s, 10**9) if not s.dead else UNDEF
        return mk("lam", tuple(bvs), r)

    def elem_type(self, s):
        ty = self.strip_none(self.type_of(s))
        if ty and ty[0] == "list":
            return ty[1]
        if ty and ty[0] in ("dict", "set"):
            return ty[1]
        return None

    # ------------------------------------------------------------ plain functions
    def builtin(self, name, args, kwargs, st, n, fr) -> T:
        if name.startswith("@log") or name.startswith("logging."):
            return mk("bi", "@log") if name == "logging.getLogger" else NONE
        if name.startswith("@acc"):
            acc = self.accs[name]
            k = self.objs[acc.a[0]].kind
            key = (acc.a[0], self.CONTENT[k])
            cur = st.cells[key]
            if k == "list":
                st.cells[key] = self.append(cur, args[0])
            elif k == "set":
                st.cells[key] = mk("sadd", cur, self.val(args[0], st))
            else:
                st.cells[key] = self.mset(cur, self.keyval(args[0], st), args[1])
            return NONE
        f = getattr(self, "b_" + name.replace(".", "_"), None)
        if f is not None:
            return f(args, kwargs, st, n, fr)
        if name in _exc():
            return mk("exc", name)
        last = name.split(".")[-1]
        if name.startswith("dissect.util.stream."):
            f = getattr(self, "b_" + last, None)
            if f:
                return f(args, kwargs, st, n, fr)
        if name.startswith("vfa."):
            raise _AE()(f"unknown intrinsic {name}")
        vs = [self.val(a, st) for a in args] + [self.val(v, st) for v in kwargs.values()]
        if any(v.op == "undef" for v in vs):
            return UNDEF
        return mk("app", name, *vs)

    def b_len(self, args, kwargs, st, n, fr):
        o = args[0]
        if o.op == "ite":
            return self.fork(st, o.a[0], lambda s: self.b_len([o.a[1]], {}, s, n, fr), lambda s: self.b_len([o.a[2]], {}, s, n, fr))
        if o.op == "static" and isinstance(o.a[0], CType):
            s = o.a[0].fixed_size()
            return C(s) if s is not None else self.top("len of dynamic type")
        if o.op == "struct":
            return self.csize(*o.a)
        if o.op == "carr":
            return mul(o.a[1], C(o.a[0].fixed_size()))
        if o.op == "ref" and self.objs[o.a[0]].kind == "instance":
            f = self.objs[o.a[0]].cls.find("__len__")
            if f is not None:
                return self.call(mk("bound", o, f), [], {}, st)
        c = self.cls_of(o)
        if c is not None and o.op != "ref" and c.find("__len__") is not None:
            return self.call(mk("bound", o, c.find("__len__")), [], {}, st)
        v = self.val(o, st)
        if v.op == "static" and getattr(v.a[0], "members", None):
            return C(len(set(v.a[0].members.values())))
        return length(v)

    def b_range(self, args, kwargs, st, n, fr):
        a = [self.val(x, st) for x in args]
        if len(a) == 1:
            return mk("range", ZERO, a[0], ONE)
        if len(a) == 2:
            return mk("range", a[0], a[1], ONE)
        r = mk("range", *a)
        return r

    def b_enumerate(self, args, kwargs, st, n, fr):
        start = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
        return mk("enumerate", self.as_seq(args[0], st), start)

    def b_zip(self, args, kwargs, st, n, fr):
        return mk("zip", *[self.as_seq(a, st) for a in args])

    def b_reversed(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        if s.op in ("list", "tuple"):
            return mk("list", *s.a[::-1])
        if s.op == "range" and isc(s.a[2]) and abs(cv(s.a[2])) == 1:
            lo, hi, sp = s.a
            return mk("range", sub(hi, sp), sub(lo, sp), neg(sp)) if sp is ONE else mk("reversed", s)
        return mk("reversed", s)

    def b_sorted(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        return self.new_list(st, self.sort_(s, kwargs, st))

    def sort_(self, s, kwargs, st):
        key = kwargs.get("key", NONE)
        rev = kwargs.get("reverse", FALSE)
        if s.op in ("list", "tuple") and len(s.a) <= 1:
            return mk("list", *s.a)
        if key is not NONE:
            key = self.lam(key, st, self.elem_type(s))
        return mk("sorted", s, key, rev)

    def b_list(self, args, kwargs, st, n, fr):
        if not args:
            return self.new_list(st, mk("list"))
        s = self.as_seq(args[0], st)
        items = self.literal_items(s)
        if args[0].op == "ref" and self.objs[args[0].a[0]].kind == "iter":
            self.exhaust(args[0], st)
        return self.new_list(st, mk("list", *items) if items is not None else mk("tolist", s) if s.op not in tm.SEQ_OPS else s)

    def exhaust(self, it, st):
        st.cells[(it.a[0], "cur")] = length(self.get(st, (it.a[0], "src")))

    def b_tuple(self, args, kwargs, st, n, fr):
        if not args:
            return mk("tuple")
        s = self.as_seq(args[0], st)
        items = self.literal_items(s)
        return mk("tuple", *items) if items is not None else mk("tolist", s)

    def b_set(self, args, kwargs, st, n, fr):
        if not args:
            return self.new_set(st, mk("set"))
        s = self.as_seq(args[0], st)
        items = self.literal_items(s)
        return self.new_set(st, mk("set", *items) if items is not None else mk("mkset", s))

    def b_frozenset(self, args, kwargs, st, n, fr):
        return self.b_set(args, kwargs, st, n, fr)

    def b_dict(self, args, kwargs, st, n, fr):
        m = mk("dict")
        if args:
            a = args[0]
            v = self.val(a, st)
            if kind(v) == "map":
                m = v
            else:
                s = self.as_seq(a, st)
                items = self.literal_items(s)
                if items is not None and all(x.op == "tuple" and len(x.a) == 2 for x in items):
                    for x in items:
                        m = self.mset(m, self.keyval(x.a[0], st), x.a[1])
                else:
                    m = mk("mkdict", s)
        for k, v in kwargs.items():
            m = self.mset(m, C(k), v)
        return self.new_dict(st, m)

    def b_collections_OrderedDict(self, args, kwargs, st, n, fr):
        return self.b_dict(args, kwargs, st, n, fr)

    def factory(self, f, st):
        if f.op == "bi":
            return f.a[0]
        if f.op == "static" and hasattr(f.a[0], "node") and isinstance(f.a[0].node, ast.Lambda):
            b = f.a[0].node.body
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "defaultdict":
                inner = b.args[0]
                if isinstance(inner, ast.Name):
                    return ("dd", inner.id)
        return None

    def b_collections_defaultdict(self, args, kwargs, st, n, fr):
        fac = self.factory(args[0], st) if args else None
        if fac is None:
            return self.top("defaultdict factory")
        m = mk("dict")
        if len(args) > 1:
            m = self.val(args[1], st)
        return self.new_dict(st, m, factory=fac)

    def b_iter(self, args, kwargs, st, n, fr):
        o = args[0]
        if o.op == "ref" and self.objs[o.a[0]].kind == "iter":
            return o
        if o.op == "ref" and self.objs[o.a[0]].kind == "instance":
            f = self.objs[o.a[0]].cls.find("__iter__")
            if f is not None:
                return self.call(mk("bound", o, f), [], {}, st)
        if len(args) == 2:
            return self.top("iter with sentinel")
        r = self.alloc("iter")
        st.cells[(r.a[0], "src")] = self.as_seq(o, st)
        st.cells[(r.a[0], "cur")] = ZERO
        return r

    def b_next(self, args, kwargs, st, n, fr):
        o = args[0]
        if o.op == "ite":
            return self.fork(st, o.a[0], lambda s: self.b_next([o.a[1], *args[1:]], {}, s, n, fr),
                             lambda s: self.b_next([o.a[2], *args[1:]], {}, s, n, fr))
        if o.op == "ref" and self.objs[o.a[0]].kind == "iter":
            src, cur = self.get(st, (o.a[0], "src")), self.get(st, (o.a[0], "cur"))
            more = self.simp(lt(cur, length(src)), st)
            v = self.elem(src, cur)
            if len(args) > 1:
                st.cells[(o.a[0], "cur")] = ite(more, add(cur, ONE), cur)
                return ite(more, v, args[1])
            self.raise_if(st, not_(more), "StopIteration")
            st.cells[(o.a[0], "cur")] = add(cur, ONE)
            return v
        s = self.as_seq(o, st)
        if len(args) > 1:
            return ite(gt0(length(s)), self.elem(s, ZERO), args[1])
        self.raise_if(st, not_(gt0(length(s))), "StopIteration")
        return self.elem(s, ZERO)

    def b_isinstance(self, args, kwargs, st, n, fr):
        return self.isinst(args[0], args[1], st)

    def isinst(self, o, c, st):
        from . import interp as I

        if c.op == "tuple":
            return or_(*[self.isinst(o, x, st) for x in c.a])
        if c.op == "ty":
            n = c.a[0].n
            if isinstance(n, ast.BinOp):
                return or_(*[self.isinst(o, self.ty_value(x, c.a[0].mod), st) for x in (n.left, n.right)])
        if o.op == "undef":
            return FALSE
        if o.op == "ite":
            return ite(o.a[0], self.isinst(o.a[1], c, st), self.isinst(o.a[2], c, st))
        if o.op == "exc":
            want = c.a[0] if c.op in ("bi", "static") else None
            if isinstance(want, str) and want not in I.EXC_PARENT:
                want = want.split(".")[-1]
            return C(self.catches(want, o.a[0]))
        cls = None
        if o.op == "ref":
            ob = self.objs[o.a[0]]
            cls = ob.cls
            if ob.kind != "instance":
                want = c.a[0].split(".")[-1] if c.op == "bi" else None
                return C({"list": "list", "dict": "dict", "set": "set", "bytearray": "bytearray", "iter": "Iterator", "bio": "BytesIO"}.get(ob.kind) == want
                         or ob.kind == "dict" and want in ("defaultdict", "OrderedDict", "Mapping") and ob.factory is not None)
        elif o.op == "struct":
            if c.op == "static" and isinstance(c.a[0], CType):
                return C(c.a[0] is o.a[0])
            return FALSE if c.op == "static" else C(c.op == "bi" and c.a[0].endswith("Structure"))
        elif o.op in ("rec", "new"):
            cls = o.a[0] if isinstance(o.a[0], I.ClassV) else None
        elif o.op == "enum":
            cls = o.a[0]
        ty = self.type_of(o)
        if cls is None and ty is not None and ty[0] == "cls":
            cls = ty[1]
            exact = False
        else:
            exact = True
        if cls is not None and c.op == "static" and isinstance(c.a[0], I.ClassV):
            if c.a[0] in cls.mro():
                return TRUE
            if exact or cls not in c.a[0].mro():
                return FALSE
            return mk("isinst", o, c)
        if cls is not None and c.op == "bi":
            return C(any(b.split(".")[-1] == c.a[0].split(".")[-1] for b in cls.builtin_bases()))
        k = kind(o)
        if c.op == "bi":
            want = c.a[0].split(".")[-1]
            table = {"int": ("int", "bool"), "str": ("str",), "bytes": ("bytes",), "list": ("seq",), "tuple": ("tuple",), "dict": ("map",),
                     "bool": ("bool",), "set": ("set",), "float": ("float",), "bytearray": (), "memoryview": ("bytes",)}
            if want in table and k is not None and k != "obj":
                return C(k in table[want])
            if want in table and (o.op in ("rangeh", "struct") or ty == ("stream",)):
                return FALSE
            return mk("isinst", o, C(want))
        if c.op == "static" and isinstance(c.a[0], I.ClassV):
            if k is not None and k != "obj" or o.op == "rangeh" or ty == ("stream",):
                return FALSE
            return mk("isinst", o, c)
        return mk("isinst", o, c)

    def ty_value(self, node, mod):
        """The class/type object named by a type expression."""
        if isinstance(node, ast.Name):
            v = mod.env.get(node.id)
            if v is None and node.id in mod.tenv:
                v = self.import_from(*mod.tenv[node.id])
            if v is not None and v.op in ("static", "bi"):
                return v
            from . import interp as I

            if node.id in I.BUILTIN_NAMES:
                return mk("bi", node.id)
            return mk("bi", node.id)
        if isinstance(node, ast.Constant) and node.value is None:
            return mk("bi", "NoneType")
        return self.mk_ty(node, mod)

    def mk_ty(self, node, mod):
        from .expr import TyV

        key = (ast.dump(node), mod.name)
        self._tys = getattr(self, "_tys", {})
        if key not in self._tys:
            self._tys[key] = mk("ty", TyV(node, mod))
        return self._tys[key]

    def b_issubclass(self, args, kwargs, st, n, fr):
        from . import interp as I

        a, b = args
        if a.op == "static" and b.op == "static" and isinstance(a.a[0], I.ClassV):
            return C(b.a[0] in a.a[0].mro())
        if a.op == "bi" and b.op == "bi":
            return C(a is b)
        if a.op in ("static", "bi") and b.op in ("static", "bi"):
            return FALSE
        return mk("issub", a, b)

    def b_typing_get_type_hints(self, args, kwargs, st, n, fr):
        from . import interp as I

        o = args[0]
        if o.op == "ite":
            return self.fork(st, o.a[0], lambda s: self.b_typing_get_type_hints([o.a[1]], {}, s, n, fr),
                             lambda s: self.b_typing_get_type_hints([o.a[2]], {}, s, n, fr))
        if o.op == "ref":
            o = mk("static", self.objs[o.a[0]].cls)
        if o.op != "static" or not isinstance(o.a[0], I.ClassV):
            return self.top("get_type_hints")
        xs = {}
        for c in reversed(o.a[0].mro()):
            for k, a in c.ann.items():
                xs[k] = self.ty_value(a, c.mod)
        return self.new_dict(st, mk("dict", *[y for k, v in xs.items() for y in (C(k), v)]))

    def b_typing_get_origin(self, args, kwargs, st, n, fr):
        t = args[0]
        if t.op == "ty":
            nd = t.a[0].n
            if isinstance(nd, ast.Subscript):
                return self.ty_value(nd.value, t.a[0].mod)
            if isinstance(nd, ast.BinOp):
                return mk("bi", "types.UnionType")
        return NONE

    def b_typing_get_args(self, args, kwargs, st, n, fr):
        t = args[0]
        if t.op == "ty":
            nd = t.a[0].n
            m = t.a[0].mod
            if isinstance(nd, ast.Subscript):
                xs = nd.slice.elts if isinstance(nd.slice, ast.Tuple) else [nd.slice]
                return mk("tuple", *[self.ty_value(x, m) for x in xs])
            if isinstance(nd, ast.BinOp):
                xs = []

                def go(x):
                    if isinstance(x, ast.BinOp):
                        go(x.left)
                        go(x.right)
                    else:
                        xs.append(self.ty_value(x, m))

                go(nd)
                return mk("tuple", *xs)
        return mk("tuple")

    def b_hasattr(self, args, kwargs, st, n, fr):
        from . import interp as I

        o, name = args[0], cv(args[1]) if isc(args[1]) else None
        if o.op == "ite":
            return ite(o.a[0], self.b_hasattr([o.a[1], args[1]], {}, st, n, fr), self.b_hasattr([o.a[2], args[1]], {}, st, n, fr))
        if o.op == "ref" and name:
            ob = self.objs[o.a[0]]
            if ob.kind == "instance":
                if ob.cls.find(name) is not None:
                    return TRUE
                v = self.get(st, (o.a[0], name))
                return self.defined(v) if v is not None else FALSE
        if o.op == "rangeh":
            return C(name in ("size", "read", "seek", "tell"))
        if o.op == "struct" and name:
            return C(self._has_field(o.a[0], name))
        return mk("hasattr", o, args[1])

    def defined(self, v):
        """Whether a cell has been given a value on the path taken."""
        if v.op == "undef":
            return FALSE
        if v.op == "ite":
            return ite(v.a[0], self.defined(v.a[1]), self.defined(v.a[2]))
        return mk("isdef", v) if v.op in ("lv", "out") else TRUE

    def b_getattr(self, args, kwargs, st, n, fr):
        if isc(args[1]):
            if len(args) > 2:
                h = self.b_hasattr(args[:2], {}, st, n, fr)
                return self.fork(st, h, lambda s: self.getattr_(args[0], cv(args[1]), s), lambda s: args[2])
            return self.getattr_(args[0], cv(args[1]), st)
        return self.top("dynamic getattr")

    def b_setattr(self, args, kwargs, st, n, fr):
        if isc(args[1]):
            self.setattr_(args[0], cv(args[1]), args[2], st)
            return NONE
        name = args[1]
        if name.op == "ite":
            return self.fork(st, name.a[0], lambda s: self.b_setattr([args[0], name.a[1], args[2]], {}, s, n, fr),
                             lambda s: self.b_setattr([args[0], name.a[2], args[2]], {}, s, n, fr))
        # from here on any attribute of the object may be another one
        if args[0].op == "ref":
            self.open_objs.add(args[0].a[0])
        return self.lost(st, "dynamic setattr")

    def b_bytes(self, args, kwargs, st, n, fr):
        if not args:
            return C(b"")
        v = self.val(args[0], st)
        k = kind(v)
        if k == "bytes":
            return v
        if k == "int":
            if isc(v):
                return C(bytes(cv(v))) if 0 <= cv(v) < 70000 else self.top("bytes(n)")
            return mk("brep", C(b"\0"), v)
        if v.op == "enum":
            raw = v.a[0].member_values.get(v.a[1])
            return raw if raw is not None else self.top("bytes(enum)")
        if v.op == "sarr" and v.a[0].fixed_size() == 1:
            return self.rd(v.a[1], v.a[2], v.a[3])
        r = mk("app", "bytes", v)
        return self.typed(r, ("bytes",))

    def b_bytearray(self, args, kwargs, st, n, fr):
        r = self.alloc("bytearray")
        st.cells[(r.a[0], "buf")] = self.b_bytes(args, kwargs, st, n, fr)
        return r

    def b_memoryview(self, args, kwargs, st, n, fr):
        return self.val(args[0], st) if args[0].op != "ref" else args[0]

    def b_int(self, args, kwargs, st, n, fr):
        if not args:
            return ZERO
        v = self.val(args[0], st)
        if v.op == "ite" and kind(v) is None:
            return self.fork(st, v.a[0], lambda s: self.b_int([v.a[1], *args[1:]], kwargs, s, n, fr),
                             lambda s: self.b_int([v.a[2], *args[1:]], kwargs, s, n, fr))
        k = kind(v)
        if k in ("int",):
            return v
        if k == "bool":
            return ite(v, ONE, ZERO)
        base = args[1] if len(args) > 1 else kwargs.get("base", C(10))
        if isc(v):
            try:
                return C(int(cv(v), cv(base)) if isinstance(cv(v), (str, bytes)) else int(cv(v)))
            except Exception:
                pass
        r = mk("app", "int", v, base)
        self.raise_if(st, not_(self.typed(mk("app", "isint", v, base), ("bool",))), "ValueError")
        return self.typed(r, ("int",))

    def b_bytes_fromhex(self, args, kwargs, st, n, fr):
        if isc(args[0]) and isinstance(cv(args[0]), str):
            return C(bytes.fromhex(cv(args[0])))
        return self.typed(mk("app", "m:fromhex", C(b""), self.val(args[0], st)), ("bytes",))

    def b_int_from_bytes(self, args, kwargs, st, n, fr):
        v = self.val(args[0], st)
        bo = args[1] if len(args) > 1 else kwargs.get("byteorder", C("big"))
        sg = kwargs.get("signed", FALSE)
        if not isc(bo) or not isc(sg):
            return self.top("from_bytes")
        ln = length(v)
        e = "<" if cv(bo) == "little" else ">"
        if isc(ln):
            if v.op == "bytes":
                return mk("int", v.a[0], v.a[1], cv(ln), e, bool(cv(sg)))
            return mk("int", v, ZERO, cv(ln), e, bool(cv(sg)))
        r = mk("app", "frombytes", v, C(e), sg)
        return self.typed(r, ("int",))

    def b_str(self, args, kwargs, st, n, fr):
        if not args:
            return C("")
        v = self.val(args[0], st)
        if kind(v) == "str":
            return v
        return self.typed(mk("app", "str", v, *[self.val(x, st) for x in args[1:]]), ("str",))

    def b_bool(self, args, kwargs, st, n, fr):
        return self.truth_of(args[0], st) if args else FALSE

    def b_abs(self, args, kwargs, st, n, fr):
        return self.typed(mk("app", "abs", self.val(args[0], st)), ("int",))

    def b_float(self, args, kwargs, st, n, fr):
        return self.typed(mk("app", "float", self.val(args[0], st)), ("float",))

    def minmax(self, which, args, kwargs, st):
        key = kwargs.get("key", NONE)
        if len(args) == 1:
            s = self.as_seq(args[0], st)
            items = self.literal_items(s)
            if key is NONE and items is not None and all(kind(x) == "int" for x in items) and items and "default" not in kwargs:
                return self.minmax(which, items, {}, st) if len(items) > 1 else items[0]
            if key is not NONE:
                key = self.lam(key, st, self.elem_type(s))
            r = mk("minmax", which, s, key, kwargs.get("default", UNDEF))
            et = self.elem_type(s)
            return self.typed(r, et)
        if key is not NONE:
            s = mk("list", *args)
            return self.typed(mk("minmax", which, s, self.lam(key, st, self.elem_type(s)), UNDEF), self.elem_type(s))
        vs = [self.val(a, st) for a in args]
        if all(isc(v) for v in vs):
            return C((min if which == "min" else max)(cv(v) for v in vs))
        flat = []
        for v in vs:
            flat += list(v.a) if v.op == which else [v]
        flat = sorted(set(flat), key=lambda x: x.id)
        if any(kind(v) not in ("int", "bool", None) for v in flat):
            return self.typed(mk("minmax", which, mk("list", *vs), NONE, UNDEF), self.type_of(vs[0]))
        return mk(which, *flat) if len(flat) > 1 else flat[0]

    def b_min(self, args, kwargs, st, n, fr):
        return self.minmax("min", args, kwargs, st)

    def b_max(self, args, kwargs, st, n, fr):
        return self.minmax("max", args, kwargs, st)

    def b_sum(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        items = self.literal_items(s)
        start = args[1] if len(args) > 1 else kwargs.get("start", ZERO)
        if items is not None:
            r = start
            for x in items:
                r = add(r, x)
            return r
        if start is not ZERO and kind(start) == "seq" or self.val(start, st) is not start:
            return mk("app", "sumlist", s)
        return add(start, mk("sum", s))

    def b_any(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        items = self.literal_items(s)
        if items is not None:
            return or_(*[self.truth_of(x, st) for x in items])
        return mk("any", s)

    def b_all(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        items = self.literal_items(s)
        if items is not None:
            return and_(*[self.truth_of(x, st) for x in items])
        return mk("all", s)

    def b_divmod(self, args, kwargs, st, n, fr):
        return mk("tuple", fdiv(args[0], args[1]), mod(args[0], args[1]))

    def b_pow(self, args, kwargs, st, n, fr):
        return self.binop(ast.Pow(), args[0], args[1], st) if len(args) == 2 else self.top("pow3")

    def b_map(self, args, kwargs, st, n, fr):
        f = args[0]
        seqs = [self.as_seq(a, st) for a in args[1:]]
        its = [self.literal_items(s) for s in seqs]
        if all(i is not None for i in its):
            return mk("list", *[self.call(f, list(r), {}, st) for r in zip(*its)])
        # same as a generator expression
        return self.synth_loop(seqs[0] if len(seqs) == 1 else mk("zip", *seqs), st, fr,
                               lambda x, s: ([self.call(f, [x] if len(seqs) == 1 else list(x.a), {}, s)], TRUE))

    def b_filter(self, args, kwargs, st, n, fr):
        f = args[0]
        s = self.as_seq(args[1], st)
        return self.synth_loop(s, st, fr, lambda x, q: ([x], self.truth_of(x if f is NONE else self.call(f, [x], {}, q), q)))

    def synth_loop(self, seq, st, fr, fn):
        acc = self.new_list(st, mk("list"))
        self.n_misc += 1
        ix = ("ix", self.n_misc)
        st.cells[ix] = ZERO

        def cond(x):
            return lt(x.cells[ix], length(seq))

        def pre(x):
            i = x.cells[ix]
            x.cells[ix] = add(i, ONE)
            vs, c = fn(self.elem(seq, i), x)
            key = (acc.a[0], "seq")
            cur = x.cells[key]
            new = cur
            for v in vs:
                new = self.append(new, v)
            x.cells[key] = ite(c, new, cur)

        fake = ast.For(None, None, [], [])
        fake.lineno = getattr(self.node, "lineno", 0)
        m, ex = self.run_loop(fake, st, fr, cond, pre, [], [], ixkey=ix)
        if m is None:
            st.dead = True
            return UNDEF
        st.become(m)
        return self.val(acc, st)

    def b_type(self, args, kwargs, st, n, fr):
        o = args[0]
        if o.op == "ref" and self.objs[o.a[0]].cls is not None:
            return mk("static", self.objs[o.a[0]].cls)
        if o.op == "struct":
            return mk("static", o.a[0])
        c = self.cls_of(o)
        if c is not None:
            return mk("static", c)
        if o.op == "ite":
            return ite(o.a[0], self.b_type([o.a[1]], {}, st, n, fr), self.b_type([o.a[2]], {}, st, n, fr))
        return mk("app", "type", self.val(o, st))

    def b_vfa_deep(self, args, kwargs, st, n, fr):
        return mk("hdeep", self.hp(st), args[0])

    def b_id(self, args, kwargs, st, n, fr):
        if self.is_haddr(args[0]):
            return self.typed(mk("hid", args[0]), ("int",))
        return self.typed(mk("app", "id", args[0]), ("int",))

    def b_hex(self, args, kwargs, st, n, fr):
        return self.typed(mk("app", "hex", self.val(args[0], st)), ("str",))

    def b_callable(self, args, kwargs, st, n, fr):
        return C(args[0].op in ("static", "bound", "bi"))

    # ------------------------------------------------------------ standard library
    def b_functools_cache(self, args, kwargs, st, n, fr):
        return args[0] if args else mk("bi", "functools.cache")

    def b_functools_lru_cache(self, args, kwargs, st, n, fr):
        if args and args[0].op in ("static", "bound", "bi"):
            return args[0]
        return mk("bi", "functools.cache")

    def b_functools_partial(self, args, kwargs, st, n, fr):
        return mk("app", "partial", *args)

    def b_functools_reduce(self, args, kwargs, st, n, fr):
        items = self.literal_items(self.as_seq(args[1], st))
        if items is None:
            return self.lost(st, "reduce")
        acc = args[2] if len(args) > 2 else items.pop(0)
        for x in items:
            acc = self.call(args[0], [acc, x], {}, st)
        return acc

    def b_operator_attrgetter(self, args, kwargs, st, n, fr):
        return mk("app", "attrgetter", *args)

    def b_operator_itemgetter(self, args, kwargs, st, n, fr):
        return mk("app", "itemgetter", *args)

    def b_operator_methodcaller(self, args, kwargs, st, n, fr):
        return mk("app", "methodcaller", *args)

    def b_enum_auto(self, args, kwargs, st, n, fr):
        return mk("app", "enum.auto")

    def b_os_getenv(self, args, kwargs, st, n, fr):
        return mk("bi", "@env")

    def b_dataclasses_field(self, args, kwargs, st, n, fr):
        return mk("app", "dataclasses.field", kwargs.get("default_factory", kwargs.get("default", NONE)))

    def b_itertools_chain(self, args, kwargs, st, n, fr):
        r = mk("list")
        for a in args:
            r = self.concat(r, self.as_seq(a, st))
        return r

    def b_itertools_count(self, args, kwargs, st, n, fr):
        start = args[0] if args else ZERO
        step = args[1] if len(args) > 1 else ONE
        return mk("range", start, add(start, mul(C(1 << 70), step)), step)

    def b_itertools_accumulate(self, args, kwargs, st, n, fr):
        return mk("app", "accumulate", self.as_seq(args[0], st))

    def b_bisect_bisect_right(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        key = self.lam(kwargs["key"], st, self.elem_type(s)) if "key" in kwargs else NONE
        return self.typed(mk("app", "bisect_right", s, args[1], key), ("int",))

    b_bisect_bisect = b_bisect_bisect_right

    def b_bisect_bisect_left(self, args, kwargs, st, n, fr):
        s = self.as_seq(args[0], st)
        key = self.lam(kwargs["key"], st, self.elem_type(s)) if "key" in kwargs else NONE
        return self.typed(mk("app", "bisect_left", s, args[1], key), ("int",))

    def b_uuid_UUID(self, args, kwargs, st, n, fr):
        kw = {k: self.val(v, st) for k, v in kwargs.items()}
        names = ["hex", "bytes", "bytes_le", "fields", "int", "version"]
        for k, v in zip(names, args):
            kw[k] = self.val(v, st)
        (k, v), = kw.items()
        if isc(v):
            try:
                return C(_uuid.UUID(**{k: cv(v)}))
            except Exception:
                return self.top("UUID constant")
        return self.typed(mk("app", "UUID", C(k), v), ("token",))

    def struct_fmt(self, fmt):
        """-> (endian, [(count/size, code)])"""
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        e = "<"
        if fmt[:1] in "<>=!@":
            e = {"<": "<", ">": ">", "!": ">", "=": "<", "@": "<"}[fmt[0]]
            fmt = fmt[1:]
        out, num = [], ""
        for ch in fmt:
            if ch.isdigit():
                num += ch
                continue
            if ch.isspace():
                continue
            n = int(num) if num else 1
            num = ""
            if ch == "s":
                out.append((n, "s"))
            elif ch == "x":
                out.append((n, "x"))
            else:
                out += [(1, ch)] * n
        return e, out

    def unpack(self, fmt, buf, off):
        if not isc(fmt):
            return self.top("struct format")
        e, items = self.struct_fmt(cv(fmt))
        native = cv(fmt)[:1] not in ("<", ">", "=", "!", b"<", b">", b"=", b"!")
        start, wide = off, 0
        xs = []
        for cnt, ch in items:
            if native and ch in "bBhHiIlLqQ":
                # the machine's own sizes and alignment
                sz = {"b": 1, "h": 2, "i": 4, "l": 8, "q": 8}[ch.lower()]
                wide += -wide % sz
                off = add(start, C(wide))
                wide += sz
                if sz == 8:
                    ch = "q" if ch.islower() else "Q"
            elif native:
                wide += cnt if ch in "sx" else 1
            if ch == "s":
                xs.append(self.rd(buf, off, C(cnt)))
                off = add(off, C(cnt))
            elif ch == "x":
                off = add(off, C(cnt))
            elif ch in "BbHhIiLlQq?":
                sz = {"b": 1, "h": 2, "i": 4, "l": 4, "q": 8, "?": 1}[ch.lower()]
                if buf.op == "bytes":
                    v = mk("int", buf.a[0], add(buf.a[1], off), sz, e, ch.islower())
                else:
                    v = mk("int", buf, off, sz, e, ch.islower())
                xs.append(v)
                off = add(off, C(sz))
            else:
                xs.append(self.top("struct code"))
        return mk("tuple", *xs)

    def bad_format(self, fmt, buf, st):
        """Whether the format is none, or asks for another number of bytes than there are."""
        if not isc(fmt) or not isinstance(cv(fmt), (str, bytes)):
            return False
        try:
            need = _struct.calcsize(cv(fmt))
        except _struct.error:
            return True
        have = length(buf) if buf is not None and kind(buf) == "bytes" else None
        return have is not None and isc(have) and cv(have) != need

    def b_struct_unpack(self, args, kwargs, st, n, fr):
        if self.bad_format(args[0], self.val(args[1], st), st):
            return self.fails(st, "struct.error")
        return self.unpack(args[0], self.val(args[1], st), ZERO)

    def b_struct_unpack_from(self, args, kwargs, st, n, fr):
        off = args[2] if len(args) > 2 else kwargs.get("offset", ZERO)
        if self.bad_format(args[0], None, st):
            return self.fails(st, "struct.error")
        return self.unpack(args[0], self.val(args[1], st), off)

    def b_struct_calcsize(self, args, kwargs, st, n, fr):
        return C(_struct.calcsize(cv(args[0])))

    def b_struct_Struct(self, args, kwargs, st, n, fr):
        return mk("app", "Struct", args[0])

    def b_ast_literal_eval(self, args, kwargs, st, n, fr):
        v = self.val(args[0], st)
        for e in ("ValueError", "SyntaxError"):
            self.raise_if(st, not_(self.typed(mk("app", "isliteral", v), ("bool",))), e)
        return mk("app", "literal_eval", v)

    def b_re_compile(self, args, kwargs, st, n, fr):
        return mk("app", "re", *args)

    def b_re_sub(self, args, kwargs, st, n, fr):
        flags = args[4] if len(args) > 4 else kwargs.get("flags", ZERO)
        return self.typed(mk("app", "re.sub", self.val(args[0], st), args[1], self.val(args[2], st), flags), self.type_of(self.val(args[2], st)) or ("str",))

    def b_re_split(self, args, kwargs, st, n, fr):
        return self.typed(mk("app", "re.split", args[0], self.val(args[1], st)), ("list", (kind(self.val(args[1], st)) or "str",)))

    # ------------------------------------------------------------ cstruct / streams
    def b_dissect_cstruct_cstruct(self, args, kwargs, st, n, fr):
        e = "<"
        if "endian" in kwargs and isc(kwargs["endian"]):
            e = {"<": "<", ">": ">", "!": ">", "network": ">", "little": "<", "big": ">"}.get(cv(kwargs["endian"]), "<")
        ns = Namespace(e)
        t = mk("static", ns)
        txt = [a for a in args if isc(a) and isinstance(cv(a), str)]
        if txt:
            if len(cv(txt[0])) == 1:
                ns.endian = cv(txt[0])
            else:
                self.cdef_load(ns, cv(txt[0]))
        return t

    def cdef_load(self, ns, text, align=False):
        try:
            ns.load(text, align)
        except (CDefError, KeyError, SyntaxError, AttributeError) as e:
            raise _AE()(f"structure definition: {e}") from e

    def b_io_BytesIO(self, args, kwargs, st, n, fr):
        r = self.alloc("bio")
        st.cells[(r.a[0], "buf")] = self.val(args[0], st) if args else C(b"")
        st.cells[("pos", r)] = ZERO
        return r

    def b_RangeStream(self, args, kwargs, st, n, fr):
        a = dict(zip(["fh", "offset", "size", "align"], args))
        a.update(kwargs)
        r = mk("rangeh", a["fh"], a["offset"], a["size"])
        st.cells[("pos", r)] = ZERO
        return r

    def b_MappingStream(self, args, kwargs, st, n, fr):
        r = self.alloc("mstream")
        st.cells[(r.a[0], "@runs")] = mk("list")
        st.cells[(r.a[0], "size")] = args[0] if args else kwargs.get("size", NONE)
        return r

    def b_RunlistStream(self, args, kwargs, st, n, fr):
        a = dict(zip(["fh", "runlist", "size", "block_size", "align"], args))
        a.update(kwargs)
        r = self.alloc("runlist")
        for k, v in a.items():
            st.cells[(r.a[0], k)] = v
        return r

    def b_AlignedStream(self, args, kwargs, st, n, fr):
        return self.top("bare AlignedStream")

    # ------------------------------------------------------------ intrinsics for reference models
    def b_vfa_u(self, args, kwargs, st, n, fr):
        """u(stream_or_bytes, pos, size, endian, signed=False)"""
        src, pos, size = args[0], args[1], cv(args[2])
        e = cv(args[3]) if len(args) > 3 else "<"
        sg = bool(cv(args[4])) if len(args) > 4 else False
        src = self.val(src, st)
        if src.op == "bytes":
            return mk("int", src.a[0], add(src.a[1], pos), size, e, sg)
        return mk("int", src, pos, size, e, sg)

    def b_vfa_raw(self, args, kwargs, st, n, fr):
        return self.rd(self.val(args[0], st), args[1], args[2])

    def b_vfa_cstr(self, args, kwargs, st, n, fr):
        return self.typed(mk("app", "cstrz", self.rd(args[0], args[1], args[2])), ("bytes",))

    def b_vfa_ssize(self, args, kwargs, st, n, fr):
        return mk("ssize", args[0])

    def b_vfa_window(self, args, kwargs, st, n, fr):
        return mk("rangeh", *args)

    def b_vfa_runs(self, args, kwargs, st, n, fr):
        """Byte map of a stream assembled from pieces."""
        return self.runs_of(args[0], st)

    def runs_of(self, o, st):
        if o.op == "ite":
            return ite(o.a[0], self.runs_of(o.a[1], st), self.runs_of(o.a[2], st))
        if o.op == "ref":
            v = self.get(st, (o.a[0], "@runs"))
            if v is not None:
                return mk("app", "runs", v)
            if self.objs[o.a[0]].kind == "list":
                return mk("app", "runs", self.val(o, st))
            if self.objs[o.a[0]].kind == "runlist":
                g = [self.get(st, (o.a[0], k)) for k in ("runlist", "size", "block_size", "fh")]
                return mk("app", "runlist", self.val(g[0], st), *g[1:])
            return mk("app", "norun", o)
        if o.op == "rec":
            d = dict(o.a[2])
            if "@runs" in d:
                return mk("app", "runs", d["@runs"])
        if o.op == "rangeh":
            return mk("app", "runs", mk("list", mk("tuple", ZERO, o.a[2], o.a[0], o.a[1])))
        return mk("app", "runs", mk("attr", o, "@runs"))

    def b_vfa_uuid(self, args, kwargs, st, n, fr):
        return self.b_uuid_UUID([], {cv(args[0]): args[1]}, st, n, fr)

    def b_vfa_call(self, args, kwargs, st, n, fr):
        return mk("app", cv(args[0]), *[self.val(a, st) for a in args[1:]])

    def b_vfa_typed(self, args, kwargs, st, n, fr):
        return args[0]

    def b_vfa_newobj(self, args, kwargs, st, n, fr):
        """An instance of a class whose constructor is not run; fields given by keyword."""
        c = args[0].a[0]
        o = self.alloc("instance", c)
        for k, v in kwargs.items():
            st.cells[(o.a[0], k)] = v
        return o

    def b_vfa_isfield(self, args, kwargs, st, n, fr):
        return TRUE

    # ------------------------------------------------------------ methods of values
    def method(self, o, name, args, kwargs, st, recv, fr) -> T:
        from . import interp as I

        if o.op == "ite":
            return self.fork(st, o.a[0], lambda s: self.method(o.a[1], name, args, kwargs, s, None, fr) if o.a[1].op != "bm" else UNDEF,
                             lambda s: self.method(o.a[2], name, args, kwargs, s, None, fr))
        if o.op in ("undef", "top"):
            return o
        if o.op == "static":
            p = o.a[0]
            if isinstance(p, Namespace):
                if name == "load":
                    if not isc(args[0]):
                        return self.top("dynamic structure definition")
                    align = kwargs.get("align", FALSE)
                    if not isc(align):
                        return self.top("dynamic structure definition")
                    self.cdef_load(p, cv(args[0]), bool(cv(align)))
                    return o
                if name == "add_type":
                    return NONE
                raise _AE()(f"structure namespace has no member {name!r} ({self.where()})")
            if isinstance(p, CType):
                if name in ("read", "reads", "_read"):
                    return self.cload(o, args[0], st)
                return self.top("ctype." + name)
            if isinstance(p, I.ClassV):
                bb = p.builtin_bases()
                if name == "__new__":
                    return self.alloc("instance", p)
                if name == "_make":
                    return self.construct(p, o, self.literal_items(self.as_seq(args[0], st)) or [], {}, st)
                if p.members and name == "get":
                    return self.mget(mk("dict", *[y for k, v in p.members.items() for y in (C(k), v)]), args[0], args[1] if len(args) > 1 else NONE)
                return self.top(f"{p.name}.{name}")
        if o.op == "ref":
            k = self.objs[o.a[0]].kind
            if k in ("bio",) or k == "instance" or k in ("mstream", "runlist"):
                return self.stub_method(o, name, args, kwargs, st)
            if k == "iter" and name == "__next__":
                return self.b_next([o], {}, st, None, fr)
        if o.op in ("rangeh", "sym") and name in I.STREAM_METHODS:
            return self.stream_method(o, name, args, kwargs, st)
        if name in ("setdefault", "items", "values", "keys", "get", "update"):
            self.assume_haddr(o)
        v = self.val(o, st)
        k = kind(v)
        if o.op == "ref" and self.objs[o.a[0]].kind == "bytearray" and name in ("extend", "append"):
            x = args[0]
            new = self.bcat(v, self.val(x, st) if name == "extend" else mk("app", "byte", x))
            self.set_content(recv, o, new, st, fr)
            return NONE
        if k in ("seq", "tuple") and name not in ("decode",):
            return self.seq_method(o, v, name, args, kwargs, st, recv, fr)
        if k == "map":
            return self.map_method(o, v, name, args, kwargs, st, recv, fr)
        if k == "set":
            return self.set_method(o, v, name, args, kwargs, st, recv, fr)
        if name in I.STREAM_METHODS and k is None:
            return self.stream_method(o, name, args, kwargs, st)
        if v.op == "app" and v.a[0] == "re":
            x = [self.val(a, st) for a in args]
            if name == "split":
                return self.typed(mk("app", "re.split", v.a[1], x[0]), ("list", (kind(x[0]) or "str",)))
            if name == "sub":
                return self.typed(mk("app", "re.sub", v.a[1], x[0], x[1], v.a[2] if len(v.a) > 2 else ZERO), (kind(x[1]) or "str",))
            return mk("app", "re." + name, v.a[1], *x)
        if v.op == "app" and v.a[0] == "Struct":
            if name == "unpack":
                return self.unpack(v.a[1], self.val(args[0], st), ZERO)
            if name == "unpack_from":
                return self.unpack(v.a[1], self.val(args[0], st), args[1] if len(args) > 1 else ZERO)
        if k in ("bytes", "str") or name in STR_RET and k is None:
            return self.str_method(v, k, name, args, kwargs, st)
        if k == "int":
            if name == "to_bytes":
                ln = args[0] if args else kwargs.get("length", ONE)
                bo = args[1] if len(args) > 1 else kwargs.get("byteorder", C("big"))
                return self.typed(mk("app", "to_bytes", v, ln, bo, kwargs.get("signed", FALSE)), ("bytes",))
            if name == "bit_length":
                return self.typed(mk("app", "bit_length", v), ("int",))
        if name in ("append", "extend", "add", "update", "setdefault", "items", "values", "keys", "get", "pop") and k is None:
            # container of unknown kind
            if name in ("append", "extend"):
                return self.seq_method(o, v, name, args, kwargs, st, recv, fr)
            if name == "add":
                return self.set_method(o, v, name, args, kwargs, st, recv, fr)
            return self.map_method(o, v, name, args, kwargs, st, recv, fr)
        if o.op == "struct" and name == "dumps":
            return self.rd(o.a[1], o.a[2], self.csize(*o.a))
        if o.op in ("rangeh",) or self.type_of(o) == ("stream",):
            return self.stub_method(o, name, args, kwargs, st)
        if k == "obj" or k is None:
            return mk("app", "method:" + name, o, *[self.val(a, st) for a in args], *[self.val(x, st) for x in kwargs.values()])
        if k == "int" and not hasattr(int, name) and name not in ("name", "value", "dumps"):
            return self.fails(st, "AttributeError")
        return self.top(f"method {name} of {k}")

    def str_method(self, v, k, name, args, kwargs, st):
        xs = [self.val(a, st) for a in args]
        kx = [self.val(a, st) for a in kwargs.values()]
        if any(x.op == "undef" for x in xs + [v]):
            return UNDEF
        if name == "join":
            s = self.as_seq(args[0], st)
            if isc(v) and cv(v) == b"":
                items = self.literal_items(s)
                if items is not None:
                    r = C(b"")
                    for x in items:
                        r = self.bcat(r, x)
                    return r
                return mk("bjoin", s)
            return self.typed(mk("app", "m:join", v, s), (k or "str",))
        if name == "format" and isc(v) and isinstance(cv(v), str):
            r = self.strformat(cv(v), xs, dict(zip(kwargs, kx)), st)
            if r is not None:
                return r
        if isc(v) and all(isc(x) for x in xs + kx) and name not in ("format",):
            try:
                r = getattr(cv(v), name)(*[cv(x) for x in xs], **{a: cv(b) for a, b in zip(kwargs, kx)})
                if isinstance(r, list):
                    return self.new_list(st, mk("list", *[C(x) for x in r]))
                if isinstance(r, tuple):
                    return mk("tuple", *[C(x) for x in r])
                return C(r)
            except Exception:
                pass
        ret = STR_RET.get(name)
        if name == "tobytes":
            return v
        if name == "decode":
            enc = xs[0] if xs else kwargs.get("encoding", C("utf-8"))
            err = xs[1] if len(xs) > 1 else kwargs.get("errors", C("strict"))
            if isc(enc):
                e = cv(enc).lower().replace("_", "-")
                e = {"utf8": "utf-8", "utf-16le": "utf-16-le", "utf-16be": "utf-16-be", "latin1": "latin-1"}.get(e, e)
                enc = C(e)
            if err is C("strict"):
                return self.typed(mk("app", "decode", v, enc), ("str",))
            return self.typed(mk("app", "decode", v, enc, err), ("str",))
        if name == "encode":
            return self.typed(mk("app", "encode", v, *(xs or [C("utf-8")])), ("bytes",))
        if name in ("index",):
            pass
        r = mk("app", "m:" + name, v, *xs, *kx) if not kx or name not in ("split", "rsplit") else mk("app", "m:" + name, v, *(xs or [NONE]), *kx)
        kk = k or "str"
        if ret == "same":
            return self.typed(r, (kk,))
        if ret == "list":
            return self.typed(r, ("list", (kk,)))
        if ret == "tuple3":
            return self.typed(r, ("tuple", ((kk,), (kk,), (kk,))))
        if ret:
            return self.typed(r, (ret,))
        return r

    def seq_method(self, o, v, name, args, kwargs, st, recv, fr):
        if name == "append":
            self.set_content(recv, o, self.append(v, args[0]), st, fr)
            return NONE
        if name == "extend":
            s = self.as_seq(args[0], st)
            if args[0].op == "ref" and self.objs[args[0].a[0]].kind == "iter":
                self.exhaust(args[0], st)
            self.set_content(recv, o, self.concat(v, s), st, fr)
            return NONE
        if name == "insert":
            self.set_content(recv, o, mk("insert", v, args[0], args[1]), st, fr)
            return NONE
        if name == "sort":
            self.set_content(recv, o, self.sort_(v, kwargs, st), st, fr)
            return NONE
        if name == "reverse":
            self.set_content(recv, o, mk("reversed", v), st, fr)
            return NONE
        if name == "pop":
            i = args[0] if args else C(-1)
            r = self.elem(v, i)
            self.raise_if(st, not_(gt0(length(v))), "IndexError")
            if v.op == "append" and isc(i) and cv(i) == -1:
                new = v.a[0]
            elif v.op == "list" and isc(i) and v.a:
                xs = list(v.a)
                del xs[cv(i)]
                new = mk("list", *xs)
            else:
                new = mk("popped", v, i)
                self.typed(new, self.type_of(v))
            self.set_content(recv, o, new, st, fr)
            return r
        if name == "copy":
            return self.new_list(st, v)
        if name == "clear":
            self.set_content(recv, o, mk("list"), st, fr)
            return NONE
        if name in ("index", "count"):
            return self.typed(mk("app", "seq." + name, v, self.val(args[0], st)), ("int",))
        if name == "remove":
            new = mk("app", "seq.remove", v, args[0])
            self.typed(new, self.type_of(v))
            self.set_content(recv, o, new, st, fr)
            return NONE
        if name == "tobytes":
            return v
        return self.lost(st, f"list.{name}")

    def map_method(self, o, v, name, args, kwargs, st, recv, fr):
        if name in ("items", "values", "keys"):
            return self.mview(name, v)
        if name == "get":
            k = self.keyval(args[0], st)
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if d.op == "ref" and self.objs[d.a[0]].kind in self.CONTENT and v.op != "dict":
                d = self.val(d, st)
            return self.mget(v, k, d)
        if name == "setdefault" and self.is_haddr(o):
            k = self.keyval(args[0], st)
            tm.MAP_OPS.add("msetd")
            new = mk("msetd", v, k, args[1] if len(args) > 1 else NONE)
            self.set_content(recv, o, new, st, fr)
            return mk("mget", new, k)
        if name == "setdefault":
            k = self.keyval(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            fac = None
            if d.op == "ref":
                ob = self.objs[d.a[0]]
                dv = self.val(d, st)
                if ob.kind == "list" and dv.op == "list" and not dv.a:
                    fac = "list"
                elif ob.kind == "set" and dv.op == "set" and not dv.a:
                    fac = "set"
                elif ob.kind == "dict" and dv.op == "dict" and not dv.a:
                    fac = ("dd", None)
            tm.MAP_OPS.add("msetd")
            if fac is not None and o.op in ("ref", "path"):
                self.set_content(recv, o, mk("msetd", v, k, self.empty_of(fac)), st, fr)
                return mk("path", o, k, fac)
            new = mk("msetd", v, k, self.val(d, st) if d.op != "ref" or self.objs[d.a[0]].kind != "instance" else d)
            self.set_content(recv, o, new, st, fr)
            return mk("mget", new, k)
        if name == "update":
            x = self.val(args[0], st) if args else mk("dict")
            if kind(x) != "map" and args:
                x = self.val(self.b_dict(args, {}, st, None, fr), st)
            new = self.mupdate(v, x)
            for k, y in kwargs.items():
                new = self.mset(new, C(k), y)
            self.set_content(recv, o, new, st, fr)
            return NONE
        if name == "pop":
            k = self.keyval(args[0], st)
            r = self.mget(v, k, args[1] if len(args) > 1 else None)
            if len(args) < 2:
                self.raise_if(st, not_(self.contains(v, k, st)), "KeyError")
            self.set_content(recv, o, mk("mdel", v, k), st, fr)
            return r
        if name == "copy":
            return self.new_dict(st, v)
        if name == "clear":
            self.set_content(recv, o, mk("dict"), st, fr)
            return NONE
        if name == "popitem":
            return self.lost(st, "popitem")
        return self.lost(st, f"dict.{name}")

    def set_method(self, o, v, name, args, kwargs, st, recv, fr):
        if name == "add":
            self.set_content(recv, o, mk("sadd", v, self.val(args[0], st) if args[0].op != "ref" else args[0]), st, fr)
            return NONE
        if name in ("discard", "remove"):
            self.set_content(recv, o, mk("sdel", v, self.val(args[0], st)), st, fr)
            return NONE
        if name == "union":
            r = v
            for a in args:
                w = self.val(a, st)
                if r.op == "set" and w.op in ("set", "list", "tuple"):
                    r = mk("set", *dict.fromkeys([*r.a, *w.a]))
                else:
                    r = mk("sunion", r, w if kind(w) == "set" else mk("mkset", w))
            return self.new_set(st, r)
        if name == "update":
            for a in args:
                w = self.val(a, st)
                v = mk("sunion", v, w if kind(w) == "set" else mk("mkset", self.as_seq(a, st)))
            self.set_content(recv, o, v, st, fr)
            return NONE
        if name == "copy":
            return self.new_set(st, v)
        return self.typed(mk("app", "set." + name, v, *[self.val(a, st) for a in args]), ("set", None))

    # ------------------------------------------------------------ streams
    def stub_method(self, o, name, args, kwargs, st):
        from . import interp as I

        if name in I.STREAM_METHODS:
            return self.stream_method(o, name, args, kwargs, st)
        if name == "add" and o.op == "ref":
            a = dict(zip(["offset", "size", "fh", "file_offset"], args))
            a.update(kwargs)
            key = (o.a[0], "@runs")
            cur = self.get(st, key)
            if cur is not None:
                st.cells[key] = self.append(cur, mk("tuple", a["offset"], a["size"], a["fh"], a.get("file_offset", ZERO)))
                return NONE
        if name in ("close", "flush"):
            return NONE
        if name in ("seekable", "readable"):
            return TRUE
        if name == "getvalue" and o.op == "ref":
            return self.get(st, (o.a[0], "buf"))
        return mk("app", "method:" + name, o, *[self.val(a, st) for a in args])

    def stream_method(self, o, name, args, kwargs, st):
        h = o
        bio = o.op == "ref" and self.objs[o.a[0]].kind == "bio"
        pos = self.pos(h, st)
        if name == "tell":
            return pos
        if name == "seek":
            off = self.val(args[0], st) if args else kwargs.get("offset", ZERO)
            wh = args[1] if len(args) > 1 else kwargs.get("whence", ZERO)
            if wh.op == "bi":
                wh = {"SEEK_SET": ZERO, "SEEK_CUR": ONE, "SEEK_END": C(2)}.get(wh.a[0].split(".")[-1], wh)
            if not isc(wh):
                np = self.top("seek whence")
            elif cv(wh) == 0:
                np = off
            elif cv(wh) == 1:
                np = add(pos, off)
            else:
                np = add(length(self.get(st, (o.a[0], "buf"))) if bio else self.stream_size(h, st), off)
            st.cells[("pos", h)] = np
            return np
        if name in ("read", "peek"):
            n = args[0] if args else kwargs.get("n", kwargs.get("size", C(-1)))
            self.note_read(st, h, pos)
            if bio:
                buf = self.get(st, (o.a[0], "buf"))
                if isc(n) and (cv(n) is None or cv(n) < 0):
                    r = self.slice_(buf, pos, NONE, NONE)
                    st.cells[("pos", h)] = length(buf)
                else:
                    r = self.slice_(buf, pos, add(pos, n), NONE)
                    if name == "read":
                        st.cells[("pos", h)] = add(pos, length(r)) if False else add(pos, n)
                return r
            if isc(n) and (cv(n) is None or cv(n) < 0):
                sz = self.stream_size(h, st)
                r = mk("bytes", h, pos, sub(sz, pos))
                st.cells[("pos", h)] = sz
                return r
            r = mk("bytes", h, pos, n)
            if name == "read":
                st.cells[("pos", h)] = add(pos, n)
            return r
        if name == "readinto":
            return self.lost(st, "readinto")
        return self.lost(st, "stream." + name)

    def stream_size(self, h, st):
        if h.op == "rangeh":
            return h.a[2]
        if h.op == "ref":
            v = self.get(st, (h.a[0], "size"))
            if v is not None:
                return v
        return mk("ssize", h)


def _exc():
    from . import interp as I

    return I.EXC_PARENT


def _AE():
    from . import interp as I

    return I.AnalysisError
