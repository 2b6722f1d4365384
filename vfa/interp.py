"""Whole-program value-flow analysis of Python source.

The source is parsed with `ast` and every statement is translated to terms (see terms.py).  Nothing of
the analysed program is imported or executed.  Branches are merged with gated (ite) terms, loops become
recurrences over the cells they change, calls are resolved through the class hierarchy and inlined.
"""
from __future__ import annotations

import ast
import os
import time
import uuid as _uuid

from . import terms as tm
from .cdef import CDefError, CType, Namespace
from .terms import (C, FALSE, NONE, ONE, SHORT, TRUE, T, UNDEF, ZERO, add, and_, cv, eq, fdiv, gt0, isc, isnone, ite, kind, le,
                    length, lt, mk, mod, mul, neg, not_, or_, sub, top, truth)


class TooLarge(RuntimeError):
    """The value graph does not fit the time the check has."""


class AnalysisError(Exception):
    """The analysed source has a shape the checker cannot anchor on (missing module, function, ...)."""


# ------------------------------------------------------------------ payloads
class ModV:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env: dict[str, T] = {}
        self.tenv: dict[str, tuple] = {}  # names imported for typing only: name -> (module, attr)


class FuncV:
    def __init__(self, name, node, mod, frame=None, cls=None):
        self.name, self.node, self.mod, self.frame, self.cls = name, node, mod, frame, cls
        self.deco = "func"
        self.cached = False
        self.is_gen = False
        if isinstance(node, ast.FunctionDef):
            self.is_gen = _has_yield(node)
        self.qual = (f"{cls.name}." if cls else "") + name


class ClassV:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.ns: dict[str, T] = {}
        self.ann: dict[str, ast.expr] = {}
        self.members: dict[str, T] = {}
        self.member_values: dict[str, T] = {}
        self.dataclass = None
        self.flavour = None  # enum / intenum / namedtuple / typeddict / exception

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = [b.a[0] for b in c.bases if b.op == "static" and isinstance(b.a[0], ClassV)] + todo
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def builtin_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if b.op == "bi":
                    out.append(b.a[0])
        return out


class Loop:
    def __init__(self, uid, node, where):
        self.uid, self.node, self.where = uid, node, where
        self.keys: list = []
        self.inits: list[T] = []
        self.nexts: list[T] = []
        self.cond: T = TRUE
        self.exits: list[tuple[str, T]] = []
        self._fl = None
        self.bound: dict = {}
        self.outer: tuple = ()
        self.slice = None


class ObjInfo:
    __slots__ = ("kind", "cls", "loops", "site", "factory")

    def __init__(self, kind, cls, loops, site, factory=None):
        self.kind, self.cls, self.loops, self.site, self.factory = kind, cls, loops, site, factory


class Exit:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class State:
    __slots__ = ("cells", "pc", "dead")

    def __init__(self, cells=None, pc=TRUE):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.dead = pc is FALSE

    def copy(self):
        s = State(dict(self.cells), self.pc)
        s.dead = self.dead
        return s

    def assume(self, c):
        s = self.copy()
        s.pc = and_(s.pc, c)
        if s.pc is FALSE:
            s.dead = True
        return s

    def become(self, o):
        self.cells, self.pc, self.dead = o.cells, o.pc, o.dead


class Frame:
    def __init__(self, fid, func, mod, parent=None, cls=None):
        self.fid, self.func, self.mod, self.parent, self.cls = fid, func, mod, parent, cls
        self.self_t = None
        self.acc = None


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


EXC_PARENT = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
    "StopIteration": "Exception", "TypeError": "Exception", "EOFError": "Exception", "OSError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "AttributeError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "UnicodeDecodeError": "UnicodeError",
    "UnicodeError": "ValueError", "AssertionError": "Exception", "IOError": "Exception", "OverflowError": "ArithmeticError",
    "Exception": "BaseException", "BaseException": None, "RecursionError": "RuntimeError", "struct.error": "Exception",
    "<cut>": "Exception",
}
BUILTIN_NAMES = set(EXC_PARENT) | set(
    "len range enumerate zip iter next isinstance issubclass hasattr getattr setattr bytes bytearray memoryview int str hex "
    "min max sum any all divmod bool id print type abs sorted reversed set frozenset dict list tuple map filter chr ord pow "
    "round super object property staticmethod classmethod NotImplemented float callable vars repr format open slice bin oct "
    "hash input exec eval compile __import__ globals locals delattr dir".split()
)
STREAM_METHODS = {"seek", "read", "tell", "readinto", "peek", "readline", "readall"}
STREAM_STUBS = {
    "dissect.util.stream.AlignedStream", "dissect.util.stream.MappingStream", "dissect.util.stream.RunlistStream",
    "dissect.util.stream.OverlayStream", "dissect.util.stream.BufferedStream", "dissect.util.stream.ConcatStream",
}
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "remove", "discard", "clear", "sort",
            "reverse", "popitem"}


class Interp:
    def __init__(self, root: str, cut=(), max_rec=4, opaque=(), heap=False, raising=(), hobj=(), memo=False, diverge=False):
        self.root = root
        # cached properties of an object are computed once, as part of its state
        self.memo = memo
        # follow recurrences and recursion until they end or come back to an earlier state
        self.diverge = diverge
        SHORT[0] = diverge
        self.bounds: list = []
        self.mods: dict[str, ModV] = {}
        self.gst = State()
        self.cut = set(cut)
        # uninterpreted functions that may also fail
        self.raising = set(raising)
        # in heap mode dictionaries are addresses into one explicit heap, so that aliases made in loops stay exact
        self.heap = heap
        # classes whose objects live in that heap, too
        self.hobj_names = set(hobj)
        self.hobj: dict = {}
        self.opaque = set(opaque) | self.raising
        self.max_rec = max_rec
        self.objs: dict[int, ObjInfo] = {}
        self.loops: dict[int, Loop] = {}
        self.n_obj = 0
        self.n_frame = 0
        self.n_loop = 0
        self.n_misc = 0
        self.raises: list[list[Exit]] = [[]]
        self.trystack: list = []
        self.deadline = None
        self.callstack: list = []
        self.loopstack: tuple = ()
        self.types: dict[int, tuple] = {}       # term id -> declared type
        self.modstack: list = []
        self.cur_exc: list = []
        # statistics
        self.funcs: set[str] = set()
        self.stats = {"calls": 0, "reads": 0, "branches": 0, "raise_sites": set(), "tops": {}, "exceptions": 0}
        self.read_sites: set = set()
        self._refs_memo: dict[int, frozenset] = {}
        self._type_memo: dict[int, object] = {}
        tm.typer[0] = self._kind_of
        self.node = None
        self._wmemo: dict = {}
        self.stray: set = set()  # attributes set on objects known only by value
        self.open_objs: set = set()  # objects with attributes set under names that are not known
        self.plain_memo: dict = {}
        self._keep: list = []
        tm.locator[0] = self._loc

    def _loc(self):
        return (self.callstack[-1][0] if self.callstack else None, getattr(self.node, "lineno", 0))

    # ============================================================== modules
    def mod_path(self, dotted):
        base = os.path.join(self.root, *dotted.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.exists(base + ".py"):
            return base + ".py"
        return None

    def module(self, dotted) -> ModV | None:
        if dotted in self.mods:
            return self.mods[dotted]
        path = self.mod_path(dotted)
        if path is None:
            return None
        with open(path, encoding="utf-8") as f:
            src = f.read()
        return self.load_source(dotted, path, src)

    def load_source(self, dotted, path, src) -> ModV:
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise AnalysisError(f"{path}: {e}") from e
        m = ModV(dotted, path, tree)
        self.mods[dotted] = m
        saved = (self.callstack, self.trystack, self.raises, self.loopstack)
        self.callstack, self.trystack, self.raises, self.loopstack = [], [], [[]], ()
        fr = Frame(self._fid(), None, m)
        fr.is_module = True
        self.exec_block(tree.body, self.gst, fr)
        self.gst.pc = TRUE
        self.gst.dead = False
        self.callstack, self.trystack, self.raises, self.loopstack = saved
        return m

    def _fid(self):
        self.n_frame += 1
        return self.n_frame

    def do_import(self, node, st, fr):
        def put(name, val):
            self.assign_name(name, val, st, fr)

        if isinstance(node, ast.Import):
            for al in node.names:
                if al.name.startswith("dissect.volume"):
                    m = self.module(al.name)
                    if al.asname:
                        put(al.asname, mk("static", m) if m else mk("bi", al.name))
                    else:
                        put(al.name.split(".")[0], mk("bi", al.name.split(".")[0]))
                else:
                    put(al.asname or al.name.split(".")[0], mk("bi", al.name if al.asname else al.name.split(".")[0]))
            return
        base = node.module or ""
        if node.level:
            pk = fr.mod.name.split(".")
            if not fr.mod.path.endswith("__init__.py"):
                pk = pk[:-1]
            pk = pk[: len(pk) - (node.level - 1)]
            base = ".".join(pk + ([node.module] if node.module else []))
        if base == "__future__":
            return
        for al in node.names:
            name = al.asname or al.name
            put(name, self.import_from(base, al.name))

    def import_from(self, base, name) -> T:
        if base == "vfa":
            return mk("bi", f"vfa.{name}")
        m = self.module(base) if base.split(".")[:2] == ["dissect", "volume"] else None
        if m is not None:
            if name in m.env:
                return m.env[name]
            sm = self.module(f"{base}.{name}")
            if sm is not None:
                return mk("static", sm)
            if name in m.tenv:
                return self.import_from(*m.tenv[name])
            return mk("top", f"missing:{base}.{name}")
        return mk("bi", f"{base}.{name}")

    # ============================================================== state helpers
    def get(self, st, key):
        v = st.cells.get(key)
        if v is None:
            v = self.gst.cells.get(key)
        return v

    def put(self, st, key, v):
        st.cells[key] = v

    def top(self, reason):
        where = self.where()
        self.stats["tops"][f"{reason} @ {where}"] = self.stats["tops"].get(f"{reason} @ {where}", 0) + 1
        return top(f"{reason} @ {where}")

    def lost(self, st, reason):
        """The effect of the construct is not modelled: what follows on this path stays undecided."""
        t = self.top(reason)
        if self.raises and not st.dead:
            self.raise_if(st, TRUE, "<bound>", force=True)
        return t

    def where(self):
        n = self.node
        fn = self.callstack[-1][0] if self.callstack else None
        if fn is None:
            return "?"
        rel = os.path.relpath(fn.mod.path, self.root) if os.path.isabs(fn.mod.path) else fn.mod.path
        return f"{rel}:{getattr(n, 'lineno', '?')} {fn.qual}"

    def alloc(self, kind_, cls=None, factory=None) -> T:
        self.n_obj += 1
        self.objs[self.n_obj] = ObjInfo(kind_, cls, self.loopstack, self.node, factory)
        return mk("ref", self.n_obj)

    def new_list(self, st, seq: T) -> T:
        r = self.alloc("list")
        st.cells[(r.a[0], "seq")] = seq
        return r

    # -- explicit heap
    def hp(self, st):
        return self.get(st, ("heap", 0)) or mk("hempty")

    def is_haddr(self, t):
        if not self.heap:
            return False
        return t.op == "haddr" or self.strip_none(self.type_of(t)) == ("haddr",)

    def assume_haddr(self, t):
        """A value of unknown type that is used like a dictionary."""
        if self.heap and t.op == "ite":
            self.assume_haddr(t.a[1])
            self.assume_haddr(t.a[2])
        if self.heap and t.op in ("mget", "mgetd", "elem", "lv", "out", "ite", "idx") and self.type_of(t) is None:
            self.types[t.id] = ("haddr",)

    def hobj_cls(self, t, name):
        """The class of an object in the explicit heap, also of a value of unknown type that is used like one."""
        if not self.hobj_names or not self.heap:
            return None
        if t.op == "hobj":
            return t.a[1]
        if t.op in ("mget", "mgetd", "elem", "lv", "out", "idx", "sym"):
            ty = self.type_of(t)
            if ty is None:
                for qn, c in self.hobj.items():
                    if name in c.hattrs or c.find(name) is not None:
                        self.types[t.id] = ("union", (("cls", c), ("none",)))
                        return c
            ty = self.strip_none(ty)
            if ty and ty[0] == "cls" and f"{ty[1].mod.name}.{ty[1].name}" in self.hobj:
                return ty[1]
        return None

    def new_hobj(self, c, st):
        qn = f"{c.mod.name}.{c.name}"
        if qn not in self.hobj:
            self.hobj[qn] = c
            c.hattrs = {n.attr for k in c.mro() for n in ast.walk(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                        and isinstance(n.value, ast.Name) and n.value.id == "self"}
        h = self.hp(st)
        st.cells[("heap", 0)] = mk("hnew", h, mk("dict"))
        return mk("hobj", self.hlen(h), c)

    def new_dict(self, st, m: T, factory=None) -> T:
        if self.heap and factory is None and self.callstack:
            h = self.hp(st)
            st.cells[("heap", 0)] = mk("hnew", h, m)
            return mk("haddr", self.hlen(h))
        r = self.alloc("dict", factory=factory)
        st.cells[(r.a[0], "map")] = m
        return r

    def new_set(self, st, s: T) -> T:
        r = self.alloc("set")
        st.cells[(r.a[0], "set")] = s
        return r

    CONTENT = {"list": "seq", "dict": "map", "set": "set", "bytearray": "buf", "bio": "buf"}

    def val(self, t: T, st) -> T:
        """The content of a container reference; other terms unchanged."""
        if t.op == "ref":
            o = self.objs[t.a[0]]
            f = self.CONTENT.get(o.kind)
            if f and o.kind != "bio":
                return self.get(st, (t.a[0], f))
            if o.kind == "iter":
                src, cur = self.get(st, (t.a[0], "src")), self.get(st, (t.a[0], "cur"))
                return src if cur is ZERO else self.slice_(src, cur, NONE, NONE)
        if t.op == "ite":
            return ite(t.a[0], self.val(t.a[1], st), self.val(t.a[2], st))
        if t.op == "path":
            return self.path_get(t, st)
        if self.is_haddr(t):
            return self.hget(self.hp(st), t)
        return t

    @staticmethod
    def hlen(h):
        while h.op == "hput":
            h = h.a[0]
        return mk("hlen", h)

    def hget(self, h, a):
        """What the heap holds at an address."""
        while True:
            if h.op == "hput" and h.a[1] is a:
                return h.a[2]
            if h.op == "hnew" and a.op in ("haddr", "hobj"):
                if a.a[0] is self.hlen(h.a[0]):
                    return h.a[1]
                if a.a[0].op == "hlen" and self.hbefore(a.a[0].a[0], h.a[0]):
                    h = h.a[0]
                    continue
            if h.op == "hput" and a.op in ("haddr", "hobj") and h.a[1].op in ("haddr", "hobj") and h.a[1].a[0].op == "hlen" and a.a[0].op == "hlen" \
                    and self.hbefore(a.a[0].a[0], h.a[1].a[0].a[0]) is not self.hbefore(h.a[1].a[0].a[0], a.a[0].a[0]):
                h = h.a[0]
                continue
            return mk("hget", h, a)

    @staticmethod
    def hbefore(x, h):
        """x is a strictly smaller heap that h was made from."""
        new = False
        while h is not x and h.op in ("hput", "hnew"):
            new = new or h.op == "hnew"
            h = h.a[0]
        return h is x and new

    # -- merging
    def merge(self, sts: list[State]) -> State | None:
        sts = [s for s in sts if s is not None and not s.dead]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        pcs = [tm.conj(s.pc) for s in sts]
        n = 0
        while all(len(p) > n for p in pcs) and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        sels = [and_(*p[n:]) for p in pcs]
        out = State({}, or_(*[s.pc for s in sts]))
        keys = {}
        for s in sts:
            for k in s.cells:
                keys[k] = None
        first = sts[0].cells
        for k in keys:
            v0 = first.get(k)
            if all(s.cells.get(k) is v0 for s in sts[1:]):
                out.cells[k] = v0
                continue
            vals = []
            for s in sts:
                v = s.cells.get(k)
                if v is None:
                    v = self.default_cell(k)
                vals.append(v)
            r = vals[-1]
            for sel, v in zip(reversed(sels[:-1]), reversed(vals[:-1])):
                r = self.sel(sel, v, r)
            out.cells[k] = r
        return out

    def sel(self, c, a, b):
        # an undefined alternative is never observed on a path where it is undefined
        return ite(c, a, b)

    def default_cell(self, k):
        v = self.gst.cells.get(k)
        if v is not None:
            return v
        if k[0] == "pos":
            h = k[1]
            fresh = h.op == "rangeh" or h.op == "ref" and self.objs[h.a[0]].kind in ("bio", "instance")
            return ZERO if fresh else mk("pos0", h)
        if k[0] == "xheap":
            return mk("xempty")
        if k[0] == "heap":
            return mk("hempty")
        if isinstance(k[0], int) and k[0] in self.objs:
            return UNDEF
        return UNDEF

    def fork(self, st, c, f1, f2):
        c = self.simp(c, st)
        if isc(c):
            return f1(st) if cv(c) else f2(st)
        self.stats["branches"] += 1
        s1, s2 = st.assume(c), st.assume(not_(c))
        v1 = f1(s1) if not s1.dead else UNDEF
        v2 = f2(s2) if not s2.dead else UNDEF
        if s1.dead and s2.dead:
            st.dead = True
            return UNDEF
        if s1.dead:
            st.become(s2)
            return v2
        if s2.dead:
            st.become(s1)
            return v1
        m = self.merge([s1, s2])
        st.become(m)
        return self.sel(c, v1, v2)

    def simp(self, c, st):
        """Use the path condition to decide a branch condition."""
        if isc(c):
            return c
        facts = tm.conj(st.pc)
        ids = {x.id for x in facts}
        if c.id in ids:
            return TRUE
        if not_(c).id in ids:
            return FALSE
        if c.op == "and":
            parts = [self.simp(x, st) for x in c.a]
            return and_(*parts)
        if c.op == "not" and c.a[0].op == "and":
            return not_(and_(*[self.simp(x, st) for x in c.a[0].a]))
        if c.op == "or":
            return or_(*[self.simp(x, st) for x in c.a])
        return c

    def raise_if(self, st, cond, exc, force=False):
        """Model an implicit exception when an enclosing handler would observe it."""
        cond = self.simp(cond, st)
        if cond is FALSE:
            return
        if not force and not any(self.catches(h, exc) for hs in self.trystack for h in hs):
            return
        ex = st.assume(cond)
        if not ex.dead:
            self.raises[-1].append(Exit("raise", ex, mk("exc", exc)))
        st.pc = and_(st.pc, not_(cond))
        if st.pc is FALSE:
            st.dead = True

    def exc_chain(self, c):
        """Names of the exception class and its bases."""
        if isinstance(c, str):
            out = []
            if c.startswith("<bound"):
                return [c]
            while c:
                out.append(c)
                c = EXC_PARENT.get(c, "Exception" if c not in ("Exception", "BaseException") else None)
            return out
        if isinstance(c, ClassV):
            out = []
            for k in c.mro():
                out.append(k)
                for b in k.bases:
                    if b.op == "bi":
                        out.extend(self.exc_chain(b.a[0]))
            return out
        return []

    def catches(self, handler, exc):
        """handler/exc: builtin exception name or ClassV."""
        return handler in self.exc_chain(exc)

    # ============================================================== statements
    def exec_block(self, stmts, st, fr):
        """Execute in place; returns (state or None, exits)."""
        exits = []
        cur = st
        for i, s in enumerate(stmts):
            if cur is None or cur.dead:
                return None, exits
            cur, ex = self.exec_stmt(s, cur, fr)
            exits.extend(ex)
        if cur is not None and cur.dead:
            cur = None
        return cur, exits

    def exec_stmt(self, s, st, fr):
        if self.deadline is not None and time.time() > self.deadline:
            raise TooLarge("the analysis takes too long")
        self.node = s
        k = type(s)
        if k is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return st, []
            if isinstance(s.value, ast.Yield):
                v = self.ev(s.value.value, st, fr) if s.value.value else NONE
                self.do_yield(v, st, fr)
                return st, []
            if isinstance(s.value, ast.YieldFrom):
                v = self.ev(s.value.value, st, fr)
                if st.dead:
                    return None, []
                key = ("y", self.gen_frame(fr).fid)
                st.cells[key] = self.concat(st.cells[key], self.as_seq(v, st))
                return st, []
            self.ev(s.value, st, fr)
            return st, []
        if k is ast.Assign:
            v = self.ev(s.value, st, fr)
            if not st.dead:
                for t in s.targets:
                    self.assign(t, v, st, fr)
            return st, []
        if k is ast.AnnAssign:
            if s.value is not None:
                v = self.ev(s.value, st, fr)
                if not st.dead:
                    self.hint(v, s.annotation, fr.mod)
                    self.assign(s.target, v, st, fr)
            return st, []
        if k is ast.AugAssign:
            self.aug_assign(s, st, fr)
            return st, []
        if k is ast.If:
            if self.is_type_checking(s.test):
                self.typing_imports(s.body, fr)
                return self.exec_block(s.orelse, st, fr) if s.orelse else (st, [])
            c = truth(self.truthy(s.test, st, fr))
            if st.dead:
                return None, []
            c = self.simp(c, st)
            if isc(c):
                body = s.body if cv(c) else s.orelse
                return self.exec_block(body, st, fr) if body else (st, [])
            self.stats["branches"] += 1
            s1, s2 = st.assume(c), st.assume(not_(c))
            f1, e1 = (None, []) if s1.dead else self.exec_block(s.body, s1, fr)
            f2, e2 = (None, []) if s2.dead else (self.exec_block(s.orelse, s2, fr) if s.orelse else (s2, []))
            m = self.merge([f1, f2])
            return m, e1 + e2
        if k is ast.Return:
            v = self.ev(s.value, st, fr) if s.value is not None else NONE
            return None, ([] if st.dead else [Exit("ret", st, v)])
        if k is ast.Raise:
            self.do_raise(s, st, fr)
            return None, []
        if k is ast.For:
            return self.exec_for(s, st, fr)
        if k is ast.While:
            return self.exec_while(s, st, fr)
        if k is ast.Break:
            return None, [Exit("brk", st)]
        if k is ast.Continue:
            return None, [Exit("cont", st)]
        if k is ast.Try:
            return self.exec_try(s, st, fr)
        if k is ast.Pass:
            return st, []
        if k is ast.Assert:
            c = truth(self.truthy(s.test, st, fr))
            if not st.dead:
                self.raise_if(st, not_(c), "AssertionError", force=True)
            return st, []
        if k in (ast.Import, ast.ImportFrom):
            self.do_import(s, st, fr)
            return st, []
        if k is ast.FunctionDef:
            self.assign_name(s.name, self.make_func(s, st, fr), st, fr)
            return st, []
        if k is ast.ClassDef:
            self.assign_name(s.name, self.make_class(s, st, fr), st, fr)
            return st, []
        if k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    o, i = self.ev(t.value, st, fr), self.ev(t.slice, st, fr)
                    m = self.val(o, st)
                    if kind(m) == "map":
                        self.raise_if(st, not_(self.contains(m, self.keyval(i, st), st)), "KeyError")
                        self.set_content(t.value, o, mk("mdel", m, i), st, fr)
                    else:
                        self.set_content(t.value, o, mk("app", "delitem", m, i), st, fr)
            return st, []
        if k is ast.With:
            return self.exec_with(s, list(s.items), st, fr)
        if k is ast.Match:
            return self.exec_match(s, st, fr)
        if k in (ast.Global, ast.Nonlocal):
            return st, []
        self.lost(st, f"statement {k.__name__}")
        return st, []

    def is_type_checking(self, t):
        return isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING"

    def typing_imports(self, body, fr):
        for n in body:
            if isinstance(n, ast.ImportFrom) and n.module:
                for al in n.names:
                    fr.mod.tenv[al.asname or al.name] = (n.module, al.name)

    def exec_match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        exits, falls = [], []
        cur = st
        for case in s.cases:
            if cur is None or cur.dead:
                break
            c, binds = self.pattern(case.pattern, subj, cur, fr)
            s1 = cur.assume(self.simp(c, cur))
            s2 = cur.assume(not_(self.simp(c, cur)))
            if not s1.dead:
                for n, v in binds:
                    self.assign_name(n, v, s1, fr)
                if case.guard is not None:
                    g = self.simp(truth(self.truthy(case.guard, s1, fr)), s1)
                    sg = s1.assume(not_(g))
                    s1 = s1.assume(g)
                    s2 = self.merge([s2, sg])
                if not s1.dead:
                    f, e = self.exec_block(case.body, s1, fr)
                    falls.append(f)
                    exits += e
            cur = s2
        return self.merge([*falls, cur]), exits

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return self.cmp(ast.Eq(), subj, self.ev(p.value, st, fr), st), []
        if isinstance(p, ast.MatchSingleton):
            return (isnone(subj) if p.value is None else eq(subj, C(p.value))), []
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(x, subj, st, fr)[0] for x in p.patterns]), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, subj)] if p.name else [])
            c, b = self.pattern(p.pattern, subj, st, fr)
            return c, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchSequence) and subj.op == "tuple" and len(subj.a) == len(p.patterns):
            cs, bs = [], []
            for x, v in zip(p.patterns, subj.a):
                c, b = self.pattern(x, v, st, fr)
                cs.append(c)
                bs += b
            return and_(*cs), bs
        return mk("truth", self.top("match pattern")), []

    def do_raise(self, s, st, fr):
        self.stats["raise_sites"].add(self.where())
        if s.exc is None:
            v = self.cur_exc[-1] if self.cur_exc else mk("exc", "RuntimeError")
            self.raises[-1].append(Exit("raise", st.copy(), v))
            return
        e = s.exc
        f = e.func if isinstance(e, ast.Call) else e
        v = self.ev(f, st, fr)
        if st.dead:
            return
        if v.op == "exc":
            self.raises[-1].append(Exit("raise", st.copy(), v))
            return
        if v.op == "static" and isinstance(v.a[0], ClassV):
            self.raises[-1].append(Exit("raise", st.copy(), mk("exc", v.a[0])))
        elif v.op == "bi":
            self.raises[-1].append(Exit("raise", st.copy(), mk("exc", v.a[0].split(".")[-1])))
        elif v.op in ("static", "bound") and isinstance(e, ast.Call):
            r = self.ev(e, st, fr)
            if not st.dead:
                if r.op == "ref" and self.objs[r.a[0]].cls is not None:
                    self.raises[-1].append(Exit("raise", st.copy(), mk("exc", self.objs[r.a[0]].cls)))
                elif r.op == "exc":
                    self.raises[-1].append(Exit("raise", st.copy(), r))
                else:
                    self.raises[-1].append(Exit("raise", st.copy(), mk("exc", "Exception")))
        elif v.op == "ref" and self.objs[v.a[0]].cls is not None:
            self.raises[-1].append(Exit("raise", st.copy(), mk("exc", self.objs[v.a[0]].cls)))
        else:
            self.raises[-1].append(Exit("raise", st.copy(), mk("exc", "Exception")))

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        t = self.ev(h.type, st.copy(), fr)
        out = []
        for x in (t.a if t.op == "tuple" else (t,)):
            if x.op == "bi":
                n = x.a[0]
                out.append(n if n in EXC_PARENT else n.split(".")[-1])
            elif x.op == "static" and isinstance(x.a[0], ClassV):
                out.append(x.a[0])
        return out

    def exec_with(self, s, items, st, fr):
        if not items:
            return self.exec_block(s.body, st, fr)
        it, rest = items[0], items[1:]
        c = it.context_expr
        if isinstance(c, ast.Call):
            f = self.ev(c.func, st, fr)
            if f.op == "bi" and f.a[0] == "contextlib.suppress":
                h = ast.ExceptHandler(type=ast.Tuple(elts=c.args, ctx=ast.Load()), name=None, body=[ast.Pass()])
                t = ast.Try(body=[ast.With(items=rest, body=s.body)] if rest else s.body, handlers=[h], orelse=[], finalbody=[])
                return self.exec_try(ast.fix_missing_locations(ast.copy_location(t, s)), st, fr)
        v = self.ev(c, st, fr)
        if st.dead:
            return None, []
        ob = self.objs[v.a[0]] if v.op == "ref" else None
        if ob is not None and ob.kind == "instance" and ob.cls.find("__enter__") is not None:
            v2 = self.call(self.getattr_(v, "__enter__", st), [], {}, st, None, fr)
            if st.dead:
                return None, []
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v2, st, fr)
            self.raises.append([])
            fall, exits = self.exec_with(s, rest, st, fr)
            raised = self.raises.pop()

            def leave(x):
                return self.call(self.getattr_(v, "__exit__", x), [NONE, NONE, NONE], {}, x, None, fr)

            for e in [*exits, *raised]:
                leave(e.st)
            self.raises[-1].extend(e for e in raised if not e.st.dead)
            if fall is not None:
                leave(fall)
            return fall, [e for e in exits if not e.st.dead]
        if ob is not None and ob.kind == "iter":
            self.lost(st, "context manager")
            return st, []
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st, fr)
        return self.exec_with(s, rest, st, fr)

    def exec_try(self, s, st, fr):
        if s.finalbody:
            return self.exec_finally(s, st, fr)
        names = [self.handler_names(h, st, fr) for h in s.handlers]
        self.trystack.append([n for ns in names for n in ns])
        self.raises.append([])
        fall, exits = self.exec_block(s.body, st, fr)
        raised = self.raises.pop()
        self.trystack.pop()
        if fall is not None and s.orelse:
            fall, e2 = self.exec_block(s.orelse, fall, fr)
            exits += e2
        falls = [fall]
        groups: dict = {}
        for ex in raised:
            for i, h in enumerate(s.handlers):
                if any(self.catches(n, ex.val.a[0]) for n in names[i]):
                    groups.setdefault((i, ex.val), []).append(ex)
                    break
            else:
                self.raises[-1].append(ex)
        for (i, val), exs in groups.items():
            h = s.handlers[i]
            hs = self.merge([e.st for e in exs])
            if hs is None:
                continue
            hs = hs.copy()
            if h.name:
                self.assign_name(h.name, val, hs, fr)
            self.cur_exc.append(val)
            f, e = self.exec_block(h.body, hs, fr)
            self.cur_exc.pop()
            falls.append(f)
            exits += e
        return self.merge(falls), exits

    def exec_finally(self, s, st, fr):
        """Every way out of the statement passes through the final block."""
        self.raises.append([])
        if s.handlers:
            inner = ast.copy_location(ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[]), s)
            fall, exits = self.exec_try(inner, st, fr)
        else:
            fall, exits = self.exec_block(s.body, st, fr)
        raised = self.raises.pop()
        out = []
        for e, dst in [*((e, out) for e in exits), *((e, self.raises[-1]) for e in raised)]:
            x, more = self.exec_block(s.finalbody, e.st.copy(), fr)
            out.extend(more)
            if x is not None:
                dst.append(Exit(e.kind, x, e.val))
        if fall is not None:
            fall, more = self.exec_block(s.finalbody, fall, fr)
            out.extend(more)
        return fall, out

    # -------------------------------------------------------------- loops
    def exec_for(self, s, st, fr):
        shared = isinstance(s.iter, (ast.Name, ast.Attribute))
        itv = self.ev(s.iter, st, fr)
        if st.dead:
            return None, []
        return self.for_over(s, itv, shared, st, fr)

    def for_over(self, s, itv, shared, st, fr):
        if itv.op == "ite" and self.objs_iter(itv):
            # different iterators on different paths
            c = itv.a[0]
            s1, s2 = st.assume(c), st.assume(not_(c))
            f1, e1 = self.for_over(s, itv.a[1], shared, s1, fr) if not s1.dead else (None, [])
            f2, e2 = self.for_over(s, itv.a[2], shared, s2, fr) if not s2.dead else (None, [])
            return self.merge([f1, f2]), e1 + e2
        if itv.op == "ref" and self.objs[itv.a[0]].kind == "iter" and (shared or self.get(st, (itv.a[0], "cur")) is not ZERO):
            oid = itv.a[0]

            def cond(x):
                return lt(self.get(x, (oid, "cur")), length(self.get(x, (oid, "src"))))

            def pre(x):
                cur = self.get(x, (oid, "cur"))
                v = self.elem(self.get(x, (oid, "src")), cur)
                x.cells[(oid, "cur")] = add(cur, ONE)
                self.assign(s.target, v, x, fr)

            return self.run_loop(s, st, fr, cond, pre, s.body, s.orelse)
        seq = self.as_seq(itv, st)
        items = self.literal_items(seq)
        if items is None and seq.op == "range" and all(isc(x) for x in seq.a) and self.program_items(s, st, fr):
            items = [C(x) for x in range(*map(cv, seq.a))]
        if items is not None and len(items) <= 80:
            return self.unroll(s, items, st, fr)
        self.n_misc += 1
        ix = ("ix", self.n_misc)
        st.cells[ix] = ZERO

        def cond(x):
            return lt(x.cells[ix], length(seq))

        def pre(x):
            i = x.cells[ix]
            x.cells[ix] = add(i, ONE)
            self.assign(s.target, self.elem(seq, i), x, fr)

        return self.run_loop(s, st, fr, cond, pre, s.body, s.orelse, ixkey=ix)

    def objs_iter(self, t):
        if t.op == "ite":
            return self.objs_iter(t.a[1]) or self.objs_iter(t.a[2])
        return t.op == "ref" and self.objs[t.a[0]].kind == "iter"

    def unroll(self, s, items, st, fr):
        cur, brks, exits = st, [], []
        for it in items:
            if cur is None or cur.dead:
                cur = None
                break
            self.assign(s.target, it, cur, fr)
            f, e = self.exec_block(s.body, cur, fr)
            conts = [f]
            for x in e:
                if x.kind == "cont":
                    conts.append(x.st)
                elif x.kind == "brk":
                    brks.append(x.st)
                else:
                    exits.append(x)
            cur = self.merge(conts)
        if cur is not None and s.orelse:
            cur, e = self.exec_block(s.orelse, cur, fr)
            exits += e
        return self.merge([cur, *brks]), exits

    def exec_while(self, s, st, fr):
        def cond(x):
            return truth(self.truthy(s.test, x, fr))

        if self.program_items(s, st, fr):
            return self.peel(s, cond, st, fr)
        return self.run_loop(s, st, fr, cond, lambda x: None, s.body, s.orelse)

    def program_items(self, s, st, fr):
        """Whether a loop goes by index or iterator over a list of functions, classes or types that stands in the program."""
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript):
                x = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("next", "len") and n.args:
                x = n.args[0]
            else:
                continue
            v = self.get(st, ("v", fr.fid, x.id)) if isinstance(x, ast.Name) else None
            if v is None:
                continue
            if v.op == "ref" and self.objs[v.a[0]].kind == "iter":
                v = self.get(st, (v.a[0], "src"))
            items = self.literal_items(self.as_seq(v, st)) if v is not None else None
            if items and len(items) <= 80 and any(y.op in ("static", "bi", "ty") for i in items for y in (i.a if i.op == "tuple" else (i,))):
                return True
        return False

    def peel(self, s, cond, st, fr):
        """Passes of a loop whose condition is constant, one after the other; the rest of the passes as a recurrence."""
        cur, brks, exits = st, [], []
        for _ in range(100):
            c = self.simp(cond(cur), cur)
            if cur.dead or c is FALSE:
                break
            if c is not TRUE:
                cur, e = self.run_loop(s, cur, fr, cond, lambda x: None, s.body, s.orelse)
                return self.merge([cur, *brks]), exits + e
            f, e = self.exec_block(s.body, cur, fr)
            brks += [x.st for x in e if x.kind == "brk"]
            exits += [x for x in e if x.kind not in ("brk", "cont")]
            cur = self.merge([f] + [x.st for x in e if x.kind == "cont"])
            if cur is None or cur.dead:
                return self.merge(brks), exits
        else:
            cur, e = self.run_loop(s, cur, fr, cond, lambda x: None, s.body, s.orelse)
            return self.merge([cur, *brks]), exits + e
        if cur.dead:
            cur = None
        if cur is not None and s.orelse:
            cur, e = self.exec_block(s.orelse, cur, fr)
            exits += e
        return self.merge([cur, *brks]), exits

    def run_loop(self, s, st0, fr, cond_fn, pre_fn, body, orelse, ixkey=None):
        self.n_loop += 1
        uid = self.n_loop
        f0, o0 = (self.n_frame, self.n_misc), self.n_obj
        outer_pc = st0.pc
        W: list = []
        untyped: set = set()
        joined: dict = {}
        saved_stack = self.loopstack
        tries = 0
        # cells changed by an earlier analysis of the same loop are tried first
        memo = self._wmemo.get(id(s))
        drop: set = set()
        if memo:
            names = list(st0.cells)
            for pt in memo:
                if pt[0] in ("v", "y") and pt[1] < len(self.callstack) and self.callstack[-1 - pt[1]][0].qual == pt[2]:
                    key = (pt[0], self.callstack[-1 - pt[1]][1].fid, *pt[3:])
                    if key not in st0.cells:
                        names.append(key)
            if ixkey is not None:
                W.append(ixkey)
            for key in names:
                pt = self.cell_pattern(key)
                if pt is not None and pt in memo and self.is_outer(key, f0, o0, uid):
                    W.append(key)
                    if memo[pt]:
                        untyped.add(key)
        while True:
            tries += 1
            self.loopstack = (*saved_stack, uid)
            st1 = st0.copy()
            st1.pc = TRUE
            start = {}
            for i, key in enumerate(W):
                v = mk("lv", uid, i)
                init = self.get(st0, key)
                if init is None:
                    init = self.default_cell(key)
                if key in joined:
                    self._type_memo[v.id] = joined[key]
                elif key not in untyped:
                    self._lv_type(v, init)
                else:
                    self._type_memo[v.id] = None
                st1.cells[key] = v
                start[key] = v
            self.raises.append([])
            sc = st1
            c = cond_fn(sc)
            cond_raises = self.raises[-1]
            self.raises[-1] = []
            base = sc.copy()
            if sc.dead:
                c = FALSE
            c = self.simp(c, sc)
            norm = sc.assume(not_(c)) if c is not TRUE else None
            sb = sc.assume(c)
            if not sb.dead:
                pre_fn(sb)
                fall, exits = self.exec_block(body, sb, fr)
            else:
                fall, exits = None, []
            rs = cond_raises + self.raises.pop()
            nexts = self.merge([fall] + [e.st for e in exits if e.kind == "cont"])
            outs = []
            if norm is not None and not norm.dead:
                outs.append(("norm", norm, None))
            b = self.merge([e.st for e in exits if e.kind == "brk"])
            if b is not None:
                outs.append(("brk", b, None))
            rets = [e for e in exits if e.kind == "ret"]
            if rets:
                rk = ("retval", uid)
                for e in rets:
                    e.st.cells[rk] = e.val
                m = self.merge([e.st for e in rets])
                outs.append(("ret", m, m.cells.pop(rk)))
            byc: dict = {}
            for e in rs:
                byc.setdefault(e.val, []).append(e.st)
            for val, sts in byc.items():
                m = self.merge(sts)
                if m is not None:
                    outs.append(("raise", m, val))
            # which cells change?
            new = []
            cand = [nexts.cells] if nexts is not None else []
            cand += [o[1].cells for o in outs]
            for cells in cand:
                for key, v in cells.items():
                    if key in start or key in new:
                        continue
                    if not self.is_outer(key, f0, o0, uid):
                        continue
                    init = self.get(st0, key)
                    if init is None:
                        init = self.default_cell(key)
                    if v is not init and (nexts is not None):
                        # only a loop-carried change matters for the recurrence; exit-only changes do not
                        if nexts.cells.get(key, init) is not init:
                            new.append(key)
            # the assumed type of a carried cell must be preserved by the body
            bad = []
            again = False

            def init_of(key):
                x = self.get(st0, key)
                return x if x is not None else self.default_cell(key)

            if nexts is not None and not new:
                for i, key in enumerate(W):
                    v = start[key]
                    ty = self.type_of(v)
                    if key in joined:
                        # a cell that starts out as None keeps the type of what is assigned to it
                        nt = self.leaf_type(nexts.cells.get(key, UNDEF), v)
                        if nt is not None and nt != joined[key][1][0] and nt != ("none",):
                            del joined[key]
                            bad.append(key)
                        continue
                    if ty is None and key not in untyped and isc(init_of(key)) and cv(init_of(key)) is None:
                        nt = self.leaf_type(nexts.cells.get(key, UNDEF), v)
                        if nt is not None and nt[0] in ("tuple", "cls", "int", "bytes", "struct"):
                            joined[key] = ("union", (nt, ("none",)))
                            again = True
                            continue
                    if ty is None or key in untyped:
                        continue
                    nt = self.type_of(nexts.cells.get(key, UNDEF))
                    if nt is not None and nt[0] == "undef":
                        continue
                    if nt is None and isinstance(key[0], int) and key[1] in ("seq", "map", "set"):
                        continue
                    if nt is None or nt[0] != ty[0]:
                        bad.append(key)
            if nexts is not None and not new and tries <= 14:
                same = [k for k in W if nexts.cells.get(k) is start[k] and k not in drop]
                if same and memo:
                    # predicted but invariant here
                    drop.update(same)
                    W = [k for k in W if k not in drop]
                    self.n_loop += 1
                    uid = self.n_loop
                    continue
            if (bad or again) and tries <= 14:
                untyped.update(bad)
                self.n_loop += 1
                uid = self.n_loop
                continue
            if not new or tries > 14:
                if tries > 14:
                    self.top("loop fixpoint")
                break
            W.extend(new)
        self.loopstack = saved_stack
        if nexts is None:
            # the body never comes round again: not a loop, just a branch
            return self.finish_once(st0, outs, orelse, fr, outer_pc)
        wm = self._wmemo.setdefault(id(s), {})
        self._keep.append(s)
        for key in W:
            pt = self.cell_pattern(key)
            if pt is not None:
                wm[pt] = wm.get(pt, False) or key in untyped
        self.node = s
        L = Loop(uid, s, self.where())
        L.keys = W
        L.outer = saved_stack
        for key in W:
            init = self.get(st0, key)
            L.inits.append(init if init is not None else self.default_cell(key))
        L.nexts = [self.freeze(nexts.cells.get(k, UNDEF), nexts, o0) for k in W]
        L.ix = ixkey
        L.cont = nexts.pc
        L.exits = [(k, self.freeze(m.pc, m, o0)) for k, m, _ in outs]
        L.bound = {i: int(val.a[0][7:-1]) for i, (k, m, val) in enumerate(outs)
                   if k == "raise" and val.op == "exc" and isinstance(val.a[0], str) and val.a[0].startswith("<bound:")}
        L.local_obj = o0
        self.loops[uid] = L
        # continuation
        multi = len(outs) > 1
        falls, rexits = [], []
        for k, (kd, m, val) in enumerate(outs):
            r = State(dict(st0.cells), outer_pc)
            for key, v in m.cells.items():
                if not self.is_outer(key, f0, o0, uid):
                    continue
                init = st0.cells.get(key)
                if v is init:
                    continue
                v = self.freeze(v, m, o0)
                r.cells[key] = self.out(uid, k, v)
            if multi:
                r.pc = and_(outer_pc, mk("exited", uid, k))
            if kd == "norm":
                falls.append(r)
            elif kd == "brk":
                rexits.append(("brk", r, None))
            elif kd == "ret":
                rexits.append(("ret", r, self.out(uid, k, self.freeze(val, m, o0))))
            else:
                rexits.append(("raise", r, val))
        exits = []
        cur = falls[0] if falls else None
        if cur is not None and orelse:
            cur, e = self.exec_block(orelse, cur, fr)
            exits += e
        after = [cur]
        for kd, r, v in rexits:
            if kd == "brk":
                after.append(r)
            elif kd == "ret":
                exits.append(Exit("ret", r, v))
            else:
                self.raises[-1].append(Exit("raise", r, v))
        return self.merge(after), exits

    def finish_once(self, st0, outs, orelse, fr, outer_pc):
        falls, exits = [], []
        for kd, m, val in outs:
            r = m.copy()
            r.pc = and_(outer_pc, m.pc)
            if r.pc is FALSE:
                continue
            r.dead = False
            if kd == "norm":
                if orelse:
                    r, e = self.exec_block(orelse, r, fr)
                    exits += e
                falls.append(r)
            elif kd == "brk":
                falls.append(r)
            elif kd == "ret":
                exits.append(Exit("ret", r, val))
            else:
                self.raises[-1].append(Exit("raise", r, val))
        return self.merge(falls), exits

    def cell_pattern(self, key):
        """Name of a cell that does not depend on frame and object numbers."""
        k0 = key[0]
        if k0 in ("v", "y"):
            for d, (f, fr) in enumerate(reversed(self.callstack)):
                if fr.fid == key[1]:
                    return (k0, d, f.qual, *key[2:])
            return None
        if isinstance(k0, int):
            o = self.objs.get(k0)
            return None if o is None else ("o", o.kind, o.cls, id(o.site), len(o.loops), key[1])
        if k0 == "pos":
            return None if self.refs(key[1]) or self.fl(key[1]) else key
        if k0 in ("xheap", "heap"):
            return key
        return None

    def is_outer(self, key, f0, o0, uid):
        k0 = key[0]
        if k0 in ("v", "y"):
            return key[1] <= f0[0]
        if isinstance(k0, int):
            return k0 <= o0
        if k0 == "pos":
            return not self.mentions_local(key[1], o0, uid)
        if k0 == "ix":
            return key[1] <= f0[1]
        if k0 == "retval":
            return False
        return True

    def mentions_local(self, t, o0, uid):
        return any(o > o0 for o in self.refs(t)) or uid in self.fl(t)

    def out(self, uid, k, v):
        if uid not in self.fl(v):
            return v
        if v.op == "tuple":
            return mk("tuple", *[self.out(uid, k, x) for x in v.a])
        if v.op == "lv" and v.a[0] == uid:
            pass
        r = mk("out", uid, k, v)
        return r

    # free loop variables of a term
    def fl(self, t: T) -> frozenset:
        if t.fl is not None:
            return t.fl
        stack = [t]
        while stack:
            x = stack[-1]
            if x.fl is not None:
                stack.pop()
                continue
            subs = list(tm.subterms(x))
            if x.op in ("out", "exited"):
                L = self.loops[x.a[0]]
                subs += L.inits + L.nexts + [L.cond] + [g for _, g in L.exits]
            todo = [y for y in subs if y.fl is None]
            if todo:
                stack.extend(todo)
                continue
            r = frozenset()
            for y in subs:
                r |= y.fl
            if x.op in ("lv", "it"):
                r = r | {x.a[0]}
            elif x.op in ("out", "exited"):
                r = r - {x.a[0]}
            elif x.op == "bv":
                r = r | {("b", x.a[0])}
            elif x.op == "lam":
                r = r - {("b", v.a[0]) for v in x.a[0]}
            x.fl = r
            stack.pop()
        return t.fl

    def refs(self, t: T) -> frozenset:
        m = self._refs_memo
        if t.id in m:
            return m[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in m:
                stack.pop()
                continue
            subs = list(tm.subterms(x))
            if x.op in ("out", "exited"):
                L = self.loops[x.a[0]]
                subs += L.inits + L.nexts + [g for _, g in L.exits]
            todo = [y for y in subs if y.id not in m]
            if todo:
                stack.extend(todo)
                continue
            r = frozenset()
            for y in subs:
                r |= m[y.id]
            if x.op == "ref":
                r = r | {x.a[0]}
            m[x.id] = r
            stack.pop()
        return m[t.id]

    def freeze(self, t: T, st, o0) -> T:
        """Replace references to objects created inside the loop body by immutable records."""
        if t is None:
            return t
        loc = [o for o in self.refs(t) if o > o0]
        if not loc:
            return t
        memo: dict = {}
        busy: set = set()

        def unpath(v: T):
            if v.op == "path":
                return self.val(v, st)
            if v.op == "ite":
                return ite(v.a[0], unpath(v.a[1]), unpath(v.a[2]))
            return v

        def fobj(r: T):
            oid = r.a[0]
            if r.id in memo:
                return memo[r.id]
            if oid in busy:
                return mk("recback", oid)
            busy.add(oid)
            o = self.objs[oid]
            if o.kind in self.CONTENT and o.kind != "bio":
                c = self.get(st, (oid, self.CONTENT[o.kind]))
                res = go(c) if c is not None else UNDEF
                if o.kind == "list" and res.op not in tm.SEQ_OPS:
                    res = mk("tolist", res)
            elif o.kind == "iter":
                res = go(self.val(r, st))
            else:
                fields = []
                for key, v in st.cells.items():
                    if key[0] == oid:
                        # a value inside a dict is recorded as it is now
                        fields.append((key[1], go(unpath(v))))
                fields.sort(key=lambda kv: kv[0])
                res = mk("rec", o.cls if o.cls is not None else o.kind, self.uid(oid), tuple(fields))
            busy.discard(oid)
            memo[r.id] = res
            return res

        def go(x: T):
            if x.id in memo:
                return memo[x.id]
            if not any(o > o0 for o in self.refs(x)):
                return x
            if x.op == "ref":
                return fobj(x)
            r = self.rebuild(x, go)
            memo[x.id] = r
            return r

        return go(t)

    def uid(self, oid):
        o = self.objs[oid]
        return mk("uid", oid, *[mk("it", l) for l in o.loops])

    def rebuild(self, x: T, go) -> T:
        def arg(v):
            if isinstance(v, T):
                return go(v)
            if isinstance(v, tuple):
                return tuple(arg(y) for y in v)
            return v

        if x.op in ("out", "exited"):
            L = self.loops[x.a[0]]
            key = ("clone", L.uid, tuple(go(y).id for y in L.inits + L.nexts + [g for _, g in L.exits]))
            uid = self._clones.get(key) if hasattr(self, "_clones") else None
            if not hasattr(self, "_clones"):
                self._clones = {}
            if uid is None:
                # same recurrence with the references replaced; loop variables keep their identity
                n = Loop(L.uid, L.node, L.where)
                self.n_loop += 1
                n.uid = self.n_loop
                n.keys, n.ix, n.cont, n.local_obj = L.keys, L.ix, L.cont, L.local_obj
                ren = lambda t: self.rename_loop(go(t), L.uid, n.uid)
                n.inits = [go(t) for t in L.inits]
                n.nexts = [ren(t) for t in L.nexts]
                n.exits = [(k, ren(g)) for k, g in L.exits]
                n.cond = L.cond
                n.outer = tuple(l for o in L.outer for l in self.fl(go(mk("it", o))))
                for k, b in L.bound.items():
                    name, states = self.bounds[b]
                    n.bound[k] = len(self.bounds)
                    self.bounds.append((name, [tuple(ren(t) for t in st) for st in states]))
                self.loops[n.uid] = n
                for i in range(len(n.keys)):
                    self._type_memo[mk("lv", n.uid, i).id] = self._type_memo.get(mk("lv", L.uid, i).id)
                self._clones[key] = uid = n.uid
            if x.op == "exited":
                return mk("exited", uid, x.a[1])
            return mk("out", uid, x.a[1], self.rename_loop(go(x.a[2]), L.uid, uid))
        if x.op == "append":
            return self.append(go(x.a[0]), go(x.a[1]))
        if x.op == "ite":
            return ite(*[go(y) for y in x.a])
        return mk(x.op, *[arg(v) for v in x.a])

    def rename_loop(self, t: T, a: int, b: int, memo=None) -> T:
        memo = {} if memo is None else memo
        if a not in self.fl(t):
            return t
        if t.id in memo:
            return memo[t.id]
        if t.op == "lv" and t.a[0] == a:
            r = mk("lv", b, t.a[1])
        elif t.op == "it" and t.a[0] == a:
            r = mk("it", b)
        else:
            r = self.rebuild(t, lambda x: self.rename_loop(x, a, b, memo))
        memo[t.id] = r
        return r

    # ============================================================== functions and classes
    def make_func(self, node, st, fr, cls=None):
        f = FuncV(node.name, node, fr.mod, None if getattr(fr, "is_module", False) else fr, cls)
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            name = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
            if name in ("property", "cached_property"):
                f.deco = "property"
                f.cached = name == "cached_property"
            elif name in ("staticmethod", "classmethod"):
                f.deco = name
            elif name in ("setter",):
                f.deco = "setter"
            elif name in ("lru_cache", "cache", "wraps", "overload", "abstractmethod"):
                pass
            else:
                f.deco = "func"
                f.unknown_deco = name
        f.defaults = [self.ev(d, st, fr) for d in node.args.defaults]
        f.kwdefaults = [self.ev(d, st, fr) if d is not None else None for d in node.args.kw_defaults]
        return mk("static", f)

    def make_class(self, node, st, fr):
        bases = [self.ev(b, st, fr) for b in node.bases if not isinstance(b, ast.Subscript)]
        c = ClassV(node.name, fr.mod, node, bases)
        me = mk("static", c)
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            name = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
            if name == "dataclass":
                c.dataclass = {k.arg: getattr(k.value, "value", None) for k in d.keywords} if isinstance(d, ast.Call) else {}
        names = {b.split(".")[-1] for b in c.builtin_bases()}
        if names & {"IntEnum", "IntFlag"}:
            c.flavour = "intenum"
        elif names & {"Enum", "Flag", "StrEnum"}:
            c.flavour = "enum"
        elif "NamedTuple" in names:
            c.flavour = "namedtuple"
        elif "TypedDict" in names:
            c.flavour = "typeddict"
        cfr = Frame(self._fid(), None, fr.mod, None if getattr(fr, "is_module", False) else fr, c)
        cfr.cls_body = c
        auto = 0
        for s in node.body:
            self.node = s
            if isinstance(s, ast.FunctionDef):
                old = c.ns.get(s.name)
                f = self.make_func(s, st, cfr, c)
                if f.a[0].deco == "setter" and old is not None:
                    c.ns[s.name + "@setter"] = f
                    continue
                f.a[0].frame = None if getattr(fr, "is_module", False) else fr
                c.ns[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.ann[s.target.id] = s.annotation
                if s.value is not None:
                    c.ns[s.target.id] = self.ev(s.value, st, cfr)
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, st, cfr)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if c.flavour in ("enum", "intenum") and not (t.id.startswith("__")):
                            if v.op == "enum" and v.a[0] is c:
                                c.members[t.id] = v  # alias of an earlier member
                                c.ns[t.id] = v
                                continue
                            if v.op == "app" and v.a[0] == "enum.auto":
                                auto = auto + 1
                                raw = C(auto)
                            else:
                                raw = v
                                if isc(v) and isinstance(cv(v), int):
                                    auto = cv(v)
                            if c.flavour == "intenum":
                                c.members[t.id] = raw
                                c.ns[t.id] = raw
                            else:
                                m = mk("enum", c, t.id)
                                if not t.id.startswith("_"):
                                    c.member_values[t.id] = raw
                                c.members[t.id] = m
                                c.ns[t.id] = m
                        else:
                            c.ns[t.id] = v
            elif isinstance(s, ast.ClassDef):
                c.ns[s.name] = self.make_class(s, st, cfr)
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            elif isinstance(s, ast.If):
                pass
        return me

    def gen_frame(self, fr):
        while fr.func is None and fr.parent is not None:
            fr = fr.parent
        return fr

    def do_yield(self, v, st, fr):
        if st.dead:
            return
        key = ("y", self.gen_frame(fr).fid)
        st.cells[key] = self.append(st.cells[key], v)

    def bind(self, f: FuncV, args, kwargs, st, fr_new):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        defaults = getattr(f, "defaults", None)
        vals: dict[str, T] = {}
        for n, v in zip(params, args):
            vals[n] = v
        if len(args) > len(params):
            if a.vararg:
                vals[a.vararg.arg] = mk("tuple", *args[len(params):])
            else:
                return None
        elif a.vararg:
            vals[a.vararg.arg] = mk("tuple")
        extra = []
        kwonly = [p.arg for p in a.kwonlyargs]
        for n, v in kwargs.items():
            if n in params or n in kwonly:
                vals[n] = v
            elif a.kwarg:
                extra += [C(n), v]
            else:
                return None
        if a.kwarg:
            vals[a.kwarg.arg] = self.new_dict(st, mk("dict", *extra))
        off = len(params) - len(a.defaults)
        for i, n in enumerate(params):
            if n not in vals:
                if i < off:
                    return None
                vals[n] = defaults[i - off] if defaults is not None else self.ev(a.defaults[i - off], st, fr_new)
        for i, n in enumerate(kwonly):
            if n not in vals:
                d = f.kwdefaults[i] if defaults is not None else None
                if d is None:
                    return None
                vals[n] = d
        return vals

    def bad_call(self, f, st):
        """The arguments do not fit the signature."""
        if not self.raises:
            return self.top(f"bad call {f.qual}")
        self.raise_if(st, TRUE, "TypeError", force=True)
        return UNDEF

    @staticmethod
    def entry_args(f, args, kwargs):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        return {**{names[i] if i < len(names) else i: v for i, v in enumerate(args)}, **kwargs}

    def recursion_states(self, f, args, kwargs, st):
        """What the nested calls of a function start from: arguments and the parts of the state that change on the way."""
        entries = [fr.entry for g, fr in self.callstack if g is f] + [(self.entry_args(f, args, kwargs), st.cells)]
        common = set(entries[0][1])
        for _, cells in entries[1:]:
            common &= set(cells)
        keys = [k for k in common if (isinstance(k[0], int) or k[0] in ("pos", "xheap", "heap")) and len({id(c[k]) for _, c in entries}) > 1]
        keys.sort(key=str)
        drop = self.carried_only(f)
        out = []
        for a, c in entries:
            s = st.copy()
            s.cells = c
            out.append(tuple(self.pure(x, s) for x in [a[n] for n in sorted(a, key=str) if n not in drop] + [c[k] for k in keys if isinstance(c[k], T)]))
        return f"{f.mod.name}.{f.qual}", out

    @staticmethod
    def carried_only(f):
        """Parameters that are only part of results or of the same parameter of the next call, and so decide nothing."""
        node, out = f.node, set()
        if isinstance(node, ast.Lambda):
            return out
        params = [p.arg for p in node.args.posonlyargs + node.args.args]
        bound = f.cls is not None and f.deco != "staticmethod"
        parents = {c: n for n in ast.walk(node) for c in ast.iter_child_nodes(n)}

        def harmless(n, i, name):
            c = n
            while c is not node:
                p = parents[c]
                if isinstance(p, ast.Call) and (p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")) == node.name:
                    j = i - 1 if bound else i
                    return j < len(p.args) and p.args[j] is c
                if isinstance(p, ast.keyword) and p.arg == name and isinstance(parents[p], ast.Call):
                    q = parents[p].func
                    if (q.attr if isinstance(q, ast.Attribute) else getattr(q, "id", "")) == node.name:
                        return True
                if isinstance(p, ast.Yield):
                    return True
                c = p
            return False

        for i, name in enumerate(params):
            if i == 0 and bound:
                continue
            uses = [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == name]
            if all(isinstance(n.ctx, ast.Load) and harmless(n, i, name) for n in uses):
                out.add(name)
        return out

    def call_func(self, f: FuncV, args, kwargs, st) -> T:
        node = f.node
        depth = sum(1 for g, _ in self.callstack if g is f)
        if depth >= self.max_rec or len(self.callstack) > 60:
            # beyond the inlining bound: leave through a marked exit
            name = "<bound>"
            if self.diverge and depth >= self.max_rec:
                self.bounds.append(self.recursion_states(f, args, kwargs, st))
                name = f"<bound:{len(self.bounds) - 1}>"
            self.raises[-1].append(Exit("raise", st.copy(), mk("exc", name)))
            st.dead = True
            return UNDEF
        qn = f"{f.mod.name}.{f.qual}"
        if qn in self.opaque:
            return self.opaque_call(qn, f, args, kwargs, st)
        self.stats["calls"] += 1
        self.funcs.add(qn)
        fr = Frame(self._fid(), f, f.mod, f.frame, f.cls)
        vals = self.bind(f, args, kwargs, st, fr)
        if vals is None:
            return self.bad_call(f, st)
        params = [p.arg for p in node.args.posonlyargs + node.args.args]
        for n, v in vals.items():
            st.cells[("v", fr.fid, n)] = v
        if f.cls is not None and f.deco != "staticmethod" and params:
            fr.self_t = vals.get(params[0])
        for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if p.annotation is not None and p.arg in vals:
                self.hint(vals[p.arg], p.annotation, f.mod)
        saved = self.node
        if self.diverge:
            fr.entry = (self.entry_args(f, args, kwargs), dict(st.cells))
        self.callstack.append((f, fr))
        saved_exc = self.cur_exc
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, st, fr)
            self.callstack.pop()
            self.node = saved
            return r
        if f.is_gen:
            st.cells[("y", fr.fid)] = mk("list")
        wider = self.narrow(f, getattr(fr, "self_t", None))
        fall, exits = self.exec_block(node.body, st, fr)
        if wider is not None:
            self.types[fr.self_t.id] = wider
            self._type_memo.pop(fr.self_t.id, None)
        self.callstack.pop()
        self.cur_exc = saved_exc
        self.node = saved
        rk = ("ret", fr.fid)
        sts = []
        if fall is not None:
            fall.cells[rk] = NONE
            sts.append(fall)
        for e in exits:
            if e.kind == "ret":
                e.st.cells[rk] = e.val
                sts.append(e.st)
        m = self.merge(sts)
        if m is None:
            st.dead = True
            st.pc = FALSE
            return UNDEF
        r = m.cells.pop(rk)
        if f.is_gen:
            seq = m.cells.pop(("y", fr.fid))
            r = self.alloc("iter")
            m.cells[(r.a[0], "src")] = seq
            m.cells[(r.a[0], "cur")] = ZERO
        # drop the frame's cells unless a closure may still need them
        if not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(node) if n is not node):
            fid = fr.fid
            m.cells = {k: v for k, v in m.cells.items() if not (k[0] == "v" and k[1] == fid)}
        st.become(m)
        return r

    def opaque_call(self, qn, f, args, kwargs, st):
        vals = self.bind(f, args, kwargs, st, Frame(self._fid(), f, f.mod, f.frame, f.cls))
        if vals is None:
            return self.bad_call(f, st)
        pure = [self.pure(v, st) for v in vals.values()]
        if qn in self.raising:
            self.raise_if(st, self.typed(mk("app", "fails:" + qn, *pure), ("bool",)), "<cut>", force=True)
        r = mk("app", "call:" + qn, *pure)
        ty = self.type_ast(getattr(f.node, "returns", None), f.mod)
        if ty:
            self.types[r.id] = ty
        return r

    def pure(self, t, st):
        return self.val(t, st)

    # -- types from annotations
    def narrow(self, f, o):
        """While a method runs its object is an instance of the method's class; returns the type it had when that is a wider one."""
        if o is None or f.deco == "classmethod" or o.op not in ("sym", "attr", "elem", "mget", "idx", "lv", "out", "bv"):
            return None
        cur = self.type_of(o)
        if not cur or cur[0] != "cls" or cur[1] is f.cls or cur[1] not in f.cls.mro():
            return None
        self.types[o.id] = ("cls", f.cls)
        self._type_memo.pop(o.id, None)
        return cur

    def hint(self, t: T, ann, mod):
        if t.op in ("sym", "attr", "elem", "mget", "idx", "lv", "out", "bv") and t.id not in self.types:
            ty = self.type_ast(ann, mod)
            if ty and ty != ("any",):
                cur = self.type_of(t)
                sub = cur and cur[0] == ty[0] == "cls" and cur[1] is not ty[1] and cur[1] in ty[1].mro()
                if cur is None or cur == ("any",) or sub:
                    self.types[t.id] = ty
                    self._type_memo.pop(t.id, None)

    def type_ast(self, n, mod):
        if n is None:
            return None
        if isinstance(n, ast.Constant):
            if n.value is None:
                return ("none",)
            if isinstance(n.value, str):
                try:
                    return self.type_ast(ast.parse(n.value, mode="eval").body, mod)
                except SyntaxError:
                    return None
            return None
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            a, b = self.type_ast(n.left, mod), self.type_ast(n.right, mod)
            xs = []
            for y in (a, b):
                if y is None:
                    return None
                xs += list(y[1]) if y[0] == "union" else [y]
            return ("union", tuple(xs))
        if isinstance(n, ast.Subscript):
            h = n.value.attr if isinstance(n.value, ast.Attribute) else getattr(n.value, "id", "")
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if h in ("list", "Iterator", "Iterable", "Sequence", "List", "Generator"):
                return ("list", self.type_ast(args[0], mod))
            if h in ("dict", "Dict", "defaultdict", "OrderedDict", "Mapping"):
                return ("dict", self.type_ast(args[0], mod), self.type_ast(args[1], mod))
            if h in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.type_ast(args[0], mod))
                return ("tuple", tuple(self.type_ast(x, mod) for x in args))
            if h in ("set", "frozenset"):
                return ("set", self.type_ast(args[0], mod))
            if h == "Optional":
                return ("union", (self.type_ast(args[0], mod), ("none",)))
            return None
        if isinstance(n, ast.Attribute):
            name = n.attr
        elif isinstance(n, ast.Name):
            name = n.id
        else:
            return None
        simple = {"int": "int", "bytes": "bytes", "str": "str", "bool": "bool", "float": "float", "None": "none", "BinaryIO": "stream",
                  "list": "list", "dict": "dict", "datetime": "token", "UUID": "token", "AlignedStream": "stream",
                  "MappingStream": "stream", "RangeStream": "stream", "RunlistStream": "stream"}
        v = None
        if isinstance(n, ast.Name):
            v = mod.env.get(name)
            if v is None and name in mod.tenv:
                b, a = mod.tenv[name]
                if b.startswith("dissect.volume"):
                    v = self.import_from(b, a)
        if v is not None and v.op == "static" and isinstance(v.a[0], ClassV):
            return ("cls", v.a[0])
        if v is not None and v.op == "ty":
            return self.type_ast(v.a[0].n, v.a[0].mod)
        if name in simple:
            if name == "list":
                return ("list", None)
            if name == "dict":
                return ("dict", None, None)
            return (simple[name],)
        return None

    def leaf_type(self, t, skip):
        """The one type of the values a merge chooses from, other than None and the carried value itself; None if they differ."""
        found, todo, seen = None, [t], set()
        while todo:
            x = todo.pop()
            if x is skip or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ite":
                todo += [x.a[1], x.a[2]]
                continue
            ty = ("none",) if x is NONE else self.type_of(x)
            ty = self.strip_none(ty) or ty
            if ty is None:
                return None
            if ty in (("none",), ("undef",)):
                continue
            if found is not None and found != ty:
                return None
            found = ty
        return found or ("none",)

    def _lv_type(self, v, init):
        if v.id not in self._type_memo or self._type_memo[v.id] is None:
            ty = self.type_of(init)
            if ty == ("none",) or ty == ("undef",):
                ty = None
            self._type_memo[v.id] = ty

    def type_of(self, t: T):
        if t.id in self.types:
            return self.types[t.id]
        m = self._type_memo
        if t.id in m:
            return m[t.id]
        m[t.id] = None
        r = self._type_of(t)
        m[t.id] = r
        return r

    def _type_of(self, t: T):
        op = t.op
        if op == "haddr":
            return ("haddr",)
        if op == "hobj":
            return ("cls", t.a[1])
        if op == "rec":
            return ("cls", t.a[0]) if isinstance(t.a[0], ClassV) else None
        if op == "ref":
            o = self.objs[t.a[0]]
            if o.cls is not None and isinstance(o.cls, ClassV):
                return ("cls", o.cls)
            return None
        if op == "struct":
            return ("struct", t.a[0])
        if op == "attr":
            ty = self.strip_none(self.type_of(t.a[0]))
            if ty and ty[0] == "cls":
                for c in ty[1].mro():
                    if t.a[1] in c.ann:
                        return self.type_ast(c.ann[t.a[1]], c.mod)
                return self.init_ann(ty[1], t.a[1])
            return None
        if op == "elem":
            ty = self.strip_none(self.type_of(t.a[0]))
            if ty and ty[0] == "list":
                return ty[1]
            if ty and ty[0] == "dict":
                return ty[1]
            if ty and ty[0] == "bytes":
                return ("int",)
            if ty and ty[0] == "tuple" and isc(t.a[1]) and isinstance(cv(t.a[1]), int) and cv(t.a[1]) < len(ty[1]):
                return ty[1][cv(t.a[1])]
            return None
        if op == "idx":
            ty = self.strip_none(self.type_of(t.a[0]))
            if ty and ty[0] == "tuple" and t.a[1] < len(ty[1]):
                return ty[1][t.a[1]]
            if ty and ty[0] == "list":
                return ty[1]
            return None
        if op in ("mget", "mgetd"):
            ty = self.strip_none(self.type_of(t.a[0]))
            if ty and ty[0] == "dict":
                if op == "mgetd" and ty[2] and t.a[2] is NONE:
                    return ("union", ((self.strip_none(ty[2]) or ty[2]), ("none",)))
                return ty[2]
            return None
        if op in ("append",):
            return ("list", self.type_of(t.a[1]) or (self.type_of(t.a[0]) or (0, None))[1])
        if op == "list":
            for x in t.a:
                y = self.type_of(x)
                if y:
                    return ("list", y)
            return ("list", None)
        if op == "concat":
            a, b = self.type_of(t.a[0]), self.type_of(t.a[1])
            if a and a[0] == "list" and a[1]:
                return a
            return b
        if op in ("sorted", "reversed", "tolist", "slice"):
            ty = self.type_of(t.a[0])
            if ty and ty[0] == "dict":
                return ("list", ty[1])
            if ty and ty[0] == "tuple" and len(set(ty[1])) == 1:
                return ("list", ty[1][0])
            return ty
        if op in ("items", "keys", "values"):
            ty = self.strip_none(self.type_of(t.a[0]))
            if ty and ty[0] == "dict":
                return ("list", {"items": ("tuple", (ty[1], ty[2])), "keys": ty[1], "values": ty[2]}[op])
            return ("list", None)
        if op == "enumerate":
            ty = self.type_of(t.a[0])
            return ("list", ("tuple", (("int",), ty[1] if ty and ty[0] == "list" else None)))
        if op == "range":
            return ("list", ("int",))
        if op == "sarr":
            ct = t.a[0]
            if ct.kind in ("struct", "union"):
                return ("list", ("struct", ct))
            return ("list", ("int",))
        if op == "zarr":
            return ("list", ("struct", t.a[0]))
        if op == "dict":
            ks = self.type_of(t.a[0]) if t.a else None
            vs = None
            for x in t.a[1::2]:
                vs = vs or self.type_of(x)
            return ("dict", ks, vs)
        if op == "mset":
            b = self.type_of(t.a[0])
            kt, vt = self.type_of(t.a[1]), self.type_of(t.a[2])
            if b and b[0] == "dict":
                return ("dict", b[1] or kt, b[2] or vt)
            return ("dict", kt, vt)
        if op in ("mdel", "mupdate"):
            return self.type_of(t.a[0])
        if op == "mkdict":
            ty = self.type_of(t.a[0])
            if ty and ty[0] == "list" and ty[1] and ty[1][0] == "tuple" and len(ty[1][1]) == 2:
                return ("dict", *ty[1][1])
            return ("dict", None, None)
        if op == "tuple":
            return ("tuple", tuple(self.type_of(x) for x in t.a))
        if op == "out":
            L = self.loops.get(t.a[0])
            e = t.a[2]
            ty = self.type_of(e)
            if ty is None or ty in (("list", None), ("dict", None, None)):
                if e.op == "lv" and e.a[0] == t.a[0] and L is not None:
                    nt = self.type_of(L.nexts[e.a[1]])
                    it = self.type_of(L.inits[e.a[1]])
                    if ty is None and nt and it and it != nt and it[0] != "undef":
                        return self.union_type(it, nt)
                    ty = nt or ty
            return ty
        if op == "lv":
            L = self.loops.get(t.a[0])
            if L is not None:
                return self.strip_none(self.type_of(L.inits[t.a[1]])) or self.type_of(L.nexts[t.a[1]])
            return None
        if op == "ite":
            a, b = self.type_of(t.a[1]), self.type_of(t.a[2])
            if a == b:
                return a
            if t.a[1].op == "undef":
                return b
            if t.a[2].op == "undef":
                return a
            return self.union_type(a or ("unk",), b or ("unk",))
        if op in ("rangeh",):
            return ("stream",)
        if op == "new":
            return ("cls", t.a[0])
        if op == "enum":
            return ("cls", t.a[0])
        if op == "min_by" or op == "max_by" or op == "minmax":
            ty = self.type_of(t.a[1])
            return ty[1] if ty and ty[0] == "list" else None
        if op == "xget":
            return self.type_of(mk("attr", t.a[1], t.a[2]))
        if op == "path":
            return None
        k = None
        if op in tm.INT_OPS:
            k = "int"
        elif op in tm.BOOL_OPS:
            k = "bool"
        elif op == "const":
            v = cv(t)
            k = "none" if v is None else {"int": "int", "bool": "bool", "bytes": "bytes", "str": "str", "float": "float"}.get(type(v).__name__)
        elif op in ("bytes", "bjoin", "bpatch", "bcat"):
            k = "bytes"
        elif op == "undef":
            k = "undef"
        return (k,) if k else None

    def init_ann(self, cls, name):
        """Annotations and obvious types of attributes assigned in the class' methods."""
        cache = getattr(cls, "_init_ann", None)
        if cache is None:
            cache = cls._init_ann = {}
            for c in reversed(cls.mro()):
                for s in c.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                        pann = {p.arg: p.annotation for p in s.args.args + s.args.kwonlyargs}
                        for n in ast.walk(s):
                            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                                cache[n.target.attr] = (n.annotation, c.mod)
                            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name):
                                if pann.get(n.value.id) is not None:
                                    cache.setdefault(n.targets[0].attr, (pann[n.value.id], c.mod))
                            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Call):
                                cache.setdefault(n.targets[0].attr, (n.value, c.mod))
        if name in cache:
            n, mod = cache[name]
            if isinstance(n, ast.Call):
                return self.ctor_type(n, mod, cls)
            return self.type_ast(n, mod)
        return None

    def ctor_type(self, n, mod, cls):
        """The type of ``self.x = <call>`` when the call is a class, a C structure or list(self.method())."""
        f = n.func
        if isinstance(f, ast.Name):
            if f.id == "list" and len(n.args) == 1 and isinstance(n.args[0], ast.Call):
                ty = self.ctor_type(n.args[0], mod, cls)
                return ty if ty and ty[0] == "list" else None
            v = mod.env.get(f.id)
            if v is not None and v.op == "static" and isinstance(v.a[0], ClassV):
                return ("cls", v.a[0])
            if v is not None and v.op == "static" and isinstance(v.a[0], FuncV) and getattr(v.a[0].node, "returns", None) is not None:
                return self.type_ast(v.a[0].node.returns, v.a[0].mod)
            return None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id == "self":
                m = cls.find(f.attr)
                if m is not None and m.op in ("func", "static") and isinstance(m.a[0], FuncV) and m.a[0].node.returns is not None:
                    return self.type_ast(m.a[0].node.returns, m.a[0].mod)
                if m is not None and m.op == "static" and isinstance(m.a[0], FuncV) and m.a[0].is_gen:
                    # what an unannotated generator yields
                    made = [self.ctor_type(y.value, m.a[0].mod, cls) for y in ast.walk(m.a[0].node)
                            if isinstance(y, ast.Yield) and isinstance(y.value, ast.Call)]
                    if made and made[0] and all(x == made[0] for x in made):
                        return ("list", made[0])
                return None
            v = mod.env.get(f.value.id)
            if v is not None:
                st = State()
                try:
                    r = self.getattr_(v, f.attr, st)
                except Exception:
                    return None
                if r.op in ("ctype", "static") and getattr(r.a[0], "kind", None) == "struct":
                    return ("struct", r.a[0])
        return None

    @staticmethod
    def union_type(a, b):
        xs = []
        for y in (a, b):
            xs += [z for z in (y[1] if y[0] == "union" else (y,)) if z not in xs]
        # an empty container says nothing about its elements
        for bare in (("list", None), ("dict", None, None)):
            if bare in xs and any(z and z[0] == bare[0] and z != bare for z in xs):
                xs.remove(bare)
        if len(xs) == 1:
            return xs[0]
        return ("union", tuple(xs))

    @staticmethod
    def strip_none(ty):
        if ty and ty[0] == "union":
            xs = [x for x in ty[1] if x and x != ("none",) and x != ("unk",)]
            if len(xs) == 1:
                return xs[0]
            if len(xs) > 1:
                return ("union", tuple(xs))
        return ty

    def cls_of(self, t: T):
        ty = self.strip_none(self.type_of(t))
        if ty and ty[0] == "cls":
            return ty[1]
        return None

    def _kind_of(self, t: T):
        """Coarse kind for opaque terms (installed as terms.typer)."""
        ty = self.type_of(t)
        if ty is None:
            return None
        k = ty[0]
        if k in ("int", "bool", "bytes", "str", "float"):
            return k
        if k == "list":
            return "seq"
        if k == "dict":
            return "map"
        if k == "set":
            return "set"
        if k in ("cls", "struct"):
            return "obj"
        if k == "none":
            return "none"
        return None

    # ============================================================== assignment
    def assign_name(self, name, v, st, fr):
        if getattr(fr, "is_module", False):
            fr.mod.env[name] = v
        elif getattr(fr, "cls_body", None) is not None:
            fr.cls_body.ns[name] = v
        else:
            st.cells[("v", fr.fid, name)] = v

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            # comprehension frames keep their own targets; others go to the function frame
            self.assign_name(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            if not st.dead:
                self.setattr_(o, t.attr, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                s = self.as_seq(v, st)
                for j in range(i):
                    self.assign(t.elts[j], self.elem(s, C(j)), st, fr)
                self.assign(t.elts[i].value, self.new_list(st, self.slice_(s, C(i), C(-after) if after else NONE, NONE)), st, fr)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.elem(s, C(j - after)), st, fr)
                return
            if v.op == "tuple" and len(v.a) != len(t.elts):
                self.fails(st, "ValueError")
                return
            for i, x in enumerate(t.elts):
                self.assign(x, self.item(v, i, st, len(t.elts)), st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            if st.dead:
                return
            if isinstance(t.slice, ast.Slice):
                lo = self.ev(t.slice.lower, st, fr) if t.slice.lower else ZERO
                hi = self.ev(t.slice.upper, st, fr) if t.slice.upper else NONE
                cur = self.val(o, st)
                if self.fixed_bytes(o):
                    self.raise_if(st, TRUE, "TypeError", force=True)
                    return
                self.set_content(t.value, o, mk("bpatch", cur, lo, hi, self.val(v, st)), st, fr)
                return
            i = self.ev(t.slice, st, fr)
            if st.dead:
                return
            self.setitem(t.value, o, i, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            self.lost(st, "assignment target")

    def item(self, v, i, st, n):
        """i-th component when unpacking n values."""
        if v.op == "tuple" and len(v.a) == n:
            return v.a[i]
        if v.op == "ite":
            return ite(v.a[0], self.item(v.a[1], i, st, n), self.item(v.a[2], i, st, n))
        if v.op == "out":
            return self.out(v.a[0], v.a[1], self.item(v.a[2], i, st, n))
        if v.op in ("undef", "top"):
            return v
        c = self.val(v, st)
        if c is not v:
            return self.elem(c, C(i))
        return self.elem(v, C(i))

    def setitem(self, node, o, i, v, st, fr):
        if o.op == "ite" and any(x.op in ("ref", "ite") for x in o.a[1:]):
            def do(s, x):
                self.setitem(None, x, i, v, s, fr)
                return NONE
            self.fork(st, o.a[0], lambda s: do(s, o.a[1]), lambda s: do(s, o.a[2]))
            return
        if o.op == "ref":
            ob = self.objs[o.a[0]]
            if ob.kind == "instance":
                m = ob.cls.find("__setitem__")
                if m is not None:
                    self.call(mk("bound", o, m), [i, v], {}, st)
                    return
        self.assume_haddr(o)
        cur = self.val(o, st)
        k = kind(cur)
        i = self.keyval(i, st)
        if k == "map":
            new = self.mset(cur, i, v)
        elif self.fixed_bytes(o):
            self.raise_if(st, TRUE, "TypeError", force=True)
            return
        elif k == "bytes" or (o.op == "ref" and self.objs[o.a[0]].kind == "bytearray"):
            new = mk("bpatch", cur, i, add(i, ONE), mk("app", "byte", v))
        elif k == "seq":
            new = mk("app", "setitem", cur, i, v)
            self.types[new.id] = self.type_of(cur) or ("list", None)
        else:
            new = mk("app", "setitem", cur, i, v)
            if self.type_of(cur):
                self.types[new.id] = self.type_of(cur)
        self.set_content(node, o, new, st, fr)

    def fixed_bytes(self, o):
        """Bytes as they were read or written out, which cannot be changed in place."""
        if o.op == "ite":
            return any(self.fixed_bytes(x) for x in o.a[1:]) and all(x.op == "undef" or x is NONE or self.fixed_bytes(x) for x in o.a[1:])
        return o.op == "bytes" or isc(o) and isinstance(cv(o), bytes)

    def keyval(self, k, st):
        return self.val(k, st)

    def mset(self, m, k, v):
        if m.op == "mset" and m.a[1] is k:
            m = m.a[0]
        if m.op == "dict" and isc(k) and all(isc(x) for x in m.a[::2]):
            xs = list(m.a)
            for j in range(0, len(xs), 2):
                if xs[j] is k:
                    xs[j + 1] = v
                    return mk("dict", *xs)
            return mk("dict", *xs, k, v)
        return mk("mset", m, k, v)

    def set_content(self, node, o, new, st, fr):
        """Store the new content of container o (evaluated from expression node)."""
        if self.is_haddr(o):
            st.cells[("heap", 0)] = mk("hput", self.hp(st), o, new)
            return
        if o.op == "ref":
            f = self.CONTENT.get(self.objs[o.a[0]].kind)
            if f:
                st.cells[(o.a[0], f)] = new
                return
        if o.op == "path":
            self.path_set(o, new, st)
            return
        if o.op == "ite" and (o.a[1].op in ("ref", "path", "ite") or o.a[2].op in ("ref", "path", "ite")):
            s1, s2 = st.assume(o.a[0]), st.assume(not_(o.a[0]))
            # the new content was computed for the merged value, which is exact on both sides
            self.set_content(node, o.a[1], new, s1, fr)
            self.set_content(node, o.a[2], new, s2, fr)
            st.become(self.merge([s1, s2]) or st)
            return
        if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript)):
            self.assign(node, new, st, fr)
            return
        self.lost(st, "mutation of an unnamed container")

    # paths: values living inside a dict (setdefault / defaultdict)
    def path_get(self, p, st):
        base = self.val(p.a[0], st)
        return self.mget(base, p.a[1], self.empty_of(p.a[2]))

    def empty_of(self, f):
        if f == "list":
            return mk("list")
        if f == "set":
            return mk("set")
        if f == "int":
            return ZERO
        if isinstance(f, tuple) or f == "dict":
            return mk("dict")
        if isinstance(f, T):
            return f
        return NONE

    def path_set(self, p, new, st):
        base = self.val(p.a[0], st)
        m = self.mset(base, p.a[1], new)
        self.set_content(None, p.a[0], m, st, None)

    def setattr_(self, o, name, v, st):
        if o.op == "ite":
            def do(s, x):
                self.setattr_(x, name, v, s)
                return NONE
            self.fork(st, o.a[0], lambda s: do(s, o.a[1]), lambda s: do(s, o.a[2]))
            return
        if o.op == "undef":
            return
        if o.op == "ref":
            ob = self.objs[o.a[0]]
            if ob.cls is not None and isinstance(ob.cls, ClassV):
                f = ob.cls.find(name + "@setter")
                if f is not None:
                    self.call_func(f.a[0], [o, v], {}, st)
                    return
            st.cells[(o.a[0], name)] = v
            return
        if o.op == "static" and isinstance(o.a[0], ClassV):
            o.a[0].ns[name] = v
            return
        if o.op in ("static", "bi"):
            return
        if self.hobj_cls(o, name) is not None:
            h = self.hp(st)
            st.cells[("heap", 0)] = mk("hput", h, o, self.mset(self.hget(h, o), C(name), v))
            return
        # attribute of an object known only by value
        h = self.get(st, ("xheap", 0)) or mk("xempty")
        self.stray.add(name)
        st.cells[("xheap", 0)] = mk("xset", h, o, name, v)

    def aug_assign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st, fr)
            v = self.ev(s.value, st, fr)
            if st.dead:
                return
            if isinstance(s.op, ast.Add) and (cur.op in ("ref", "path") and kind(self.val(cur, st)) == "seq"
                                              or cur.op == "ref" and self.objs[cur.a[0]].kind == "list"):
                self.set_content(t, cur, self.concat(self.val(cur, st), self.as_seq(v, st)), st, fr)
                return
            if cur.op == "ref" and self.objs[cur.a[0]].kind == "bytearray" and isinstance(s.op, ast.Add):
                self.set_content(t, cur, self.binop(s.op, self.val(cur, st), v, st), st, fr)
                return
            if cur.op == "ref" and self.objs[cur.a[0]].kind == "set" and isinstance(s.op, ast.BitOr):
                self.set_content(t, cur, mk("sunion", self.val(cur, st), self.val(v, st)), st, fr)
                return
            if cur.op == "ref" and self.objs[cur.a[0]].kind == "dict" and isinstance(s.op, ast.BitOr):
                self.set_content(t, cur, mk("mupdate", self.val(cur, st), self.val(v, st)), st, fr)
                return
            self.assign(t, self.binop(s.op, cur, v, st), st, fr)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            if st.dead:
                return
            cur = self.getattr_(o, t.attr, st)
            v = self.ev(s.value, st, fr)
            if st.dead:
                return
            if isinstance(s.op, ast.Add) and (cur.op in ("ref", "path") and kind(self.val(cur, st)) == "seq"
                                              or cur.op == "ref" and self.objs[cur.a[0]].kind == "list"):
                self.set_content(None, cur, self.concat(self.val(cur, st), self.as_seq(v, st)), st, fr)
                return
            self.setattr_(o, t.attr, self.binop(s.op, cur, v, st), st)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                self.lost(st, "augmented slice")
                return
            i = self.ev(t.slice, st, fr)
            if st.dead:
                return
            cur = self.getitem(o, i, st)
            v = self.ev(s.value, st, fr)
            if st.dead:
                return
            if isinstance(s.op, ast.Add) and kind(self.val(cur, st)) == "seq":
                new = self.concat(self.val(cur, st), self.as_seq(v, st))
                if cur.op in ("ref", "path"):
                    self.set_content(None, cur, new, st, fr)
                else:
                    self.setitem(t.value, o, i, new, st, fr)
                return
            self.setitem(t.value, o, i, self.binop(s.op, self.val(cur, st), v, st), st, fr)


from .expr import ExprMixin  # noqa: E402


class Analyzer(ExprMixin, Interp):
    pass
