"""Hash-consed value-flow terms.

A term is the static description of a value.  Terms are interned, so structurally equal terms are the
same object, and the constructors below normalise (linear arithmetic, comparisons, boolean algebra).
"""
from __future__ import annotations


class T:
    __slots__ = ("op", "a", "id", "fl", "__weakref__")

    def __repr__(self):
        return show(self)


_tab: dict = {}
_next = [0]
prov: dict = {}        # term id -> source location that first built it
locator = [None]       # installed by the analysis


class Static:
    """Wrapper giving identity semantics to a payload inside a term."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def mk(op: str, *a) -> T:
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        t.fl = None
        _tab[key] = t
        if locator[0] is not None:
            prov[t.id] = locator[0]()
    return t


class K:
    """A constant payload which keeps 1, True and 1.0 apart."""

    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = hash((type(v).__name__, v))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return type(self.v) is type(o.v) and self.v == o.v

    def __repr__(self):
        return repr(self.v)


_cc: dict = {}


def C(v) -> T:
    k = (type(v).__name__, v)
    t = _cc.get(k)
    if t is None:
        t = mk("const", K(v))
        _cc[k] = t
    return t


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
UNDEF = mk("undef")
ZERO = C(0)
ONE = C(1)


def isc(t: T) -> bool:
    return t.op == "const"


def cv(t: T):
    return t.a[0].v


def top(reason: str) -> T:
    return mk("top", reason)


# ---------------------------------------------------------------- types
INT_OPS = {"poly", "fdiv", "mod", "band", "bor", "bxor", "shr", "shl", "int", "len", "ssize", "pos0", "it", "pow", "inv"}
BOOL_OPS = {"not", "and", "or", "gt0", "eq0", "eq", "in", "is", "truth", "exited", "isinst", "any", "all", "isnone",
            "raises", "hasattr", "isdef", "issub"}
SEQ_OPS = {"list", "append", "concat", "range", "enumerate", "zip", "sorted", "reversed", "items", "keys", "values",
           "sarr", "zarr", "tolist", "insert", "popped"}
MAP_OPS = {"dict", "mset", "mdel", "mupdate", "mkdict", "hget"}
SET_OPS = {"set", "sadd", "sdel", "mkset", "sunion"}

typer = [None]  # installed by interp: richer typing for opaque terms


def kind(t: T) -> str | None:
    """The coarse kind of a term: int, bool, bytes, str, none, seq, map, set, tuple, obj, float or None."""
    op = t.op
    if op == "const":
        v = cv(t)
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        return type(v).__name__.lower() if isinstance(v, (bytes, str, float)) else type(v).__name__
    if op in INT_OPS:
        return "int"
    if op in BOOL_OPS:
        return "bool"
    if op in SEQ_OPS:
        return "seq"
    if op in MAP_OPS:
        return "map"
    if op in SET_OPS:
        return "set"
    if op == "tuple":
        return "tuple"
    if op in ("bytes", "bjoin", "bpatch", "bcat", "brep"):
        return "bytes"
    if op == "cstr":
        return "bytes" if t.a[0].kind == "char" else "str"
    if op in ("fstr",):
        return "str"
    if op in ("ref", "rec", "struct", "enum", "exc"):
        return "obj"
    if op == "static":
        return "static"
    if op == "ite":
        a, b = kind(t.a[1]), kind(t.a[2])
        if a == b:
            return a
        if {a, b} == {"int", "bool"}:
            return "int"
        if t.a[1].op == "undef":
            return b
        if t.a[2].op == "undef":
            return a
        return None
    if op == "slice":
        return kind(t.a[0])
    if typer[0]:
        return typer[0](t)
    return None


# ---------------------------------------------------------------- arithmetic
def _poly_of(t: T):
    """-> (const, {monomial: coeff}); a monomial is a tuple of atom terms."""
    if t.op == "const" and isinstance(cv(t), int):
        return int(cv(t)), {}
    if t.op == "poly":
        return t.a[0], dict(t.a[1])
    return 0, {(t,): 1}


def _mk_poly(c: int, m: dict) -> T:
    m = {k: v for k, v in m.items() if v}
    if not m:
        return C(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1 and len(k) == 1 and kind(k[0]) != "bool":
            return k[0]
    return mk("poly", c, tuple(sorted(m.items(), key=lambda kv: tuple(x.id for x in kv[0]))))


def add(a: T, b: T) -> T:
    c1, m1 = _poly_of(a)
    c2, m2 = _poly_of(b)
    m = dict(m1)
    for k, v in m2.items():
        m[k] = m.get(k, 0) + v
    return _mk_poly(c1 + c2, m)


def neg(a: T) -> T:
    c, m = _poly_of(a)
    return _mk_poly(-c, {k: -v for k, v in m.items()})


def sub(a: T, b: T) -> T:
    return add(a, neg(b))


def mul(a: T, b: T) -> T:
    c1, m1 = _poly_of(a)
    c2, m2 = _poly_of(b)
    m: dict = {}
    l1 = list(m1.items()) + ([((), c1)] if c1 else [])
    l2 = list(m2.items()) + ([((), c2)] if c2 else [])
    if len(l1) * len(l2) > 64:
        return mk("pmul", a, b)
    for k1, v1 in l1:
        for k2, v2 in l2:
            k = tuple(sorted(k1 + k2, key=lambda x: x.id))
            m[k] = m.get(k, 0) + v1 * v2
    c = m.pop((), 0)
    return _mk_poly(c, m)


def fdiv(a: T, b: T) -> T:
    if isc(b) and cv(b) == 1:
        return a
    if isc(a) and isc(b) and cv(b) != 0:
        return C(int(cv(a)) // int(cv(b)))
    if isc(b) and cv(b) > 0:
        c, m = _poly_of(a)
        d = cv(b)
        if c % d == 0 and all(v % d == 0 for v in m.values()):
            return _mk_poly(c // d, {k: v // d for k, v in m.items()})
    return mk("fdiv", a, b)


def mod(a: T, b: T) -> T:
    if isc(a) and isc(b) and cv(b) != 0:
        return C(int(cv(a)) % int(cv(b)))
    if isc(b) and cv(b) == 1:
        return ZERO
    return mk("mod", a, b)


def bitop(op: str, a: T, b: T) -> T:
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        return C({"band": lambda: x & y, "bor": lambda: x | y, "bxor": lambda: x ^ y}[op]())
    if a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def shl(a: T, b: T) -> T:
    if isc(b) and 0 <= cv(b) < 256:
        return mul(a, C(1 << cv(b)))
    return mk("shl", a, b)


def shr(a: T, b: T) -> T:
    if isc(a) and isc(b):
        return C(cv(a) >> cv(b))
    if isc(b) and 0 <= cv(b) < 256:
        return fdiv(a, C(1 << cv(b)))
    return mk("shr", a, b)


# ---------------------------------------------------------------- booleans
def not_(a: T) -> T:
    if isc(a):
        return C(not cv(a))
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def conj(t: T):
    if t is TRUE:
        return ()
    return t.a if t.op == "and" else (t,)


def and_(*ts: T) -> T:
    out, seen = [], set()
    for t in ts:
        for x in conj(t):
            if x is FALSE:
                return FALSE
            if x is TRUE or x.id in seen:
                continue
            if not_(x).id in seen:
                return FALSE
            seen.add(x.id)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def _neg_set(xs):
    return {not_(x).id for x in xs}


def or_(*ts: T) -> T:
    """Disjunction; factors the common conjuncts and resolves complementary pairs."""
    cs = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        cs.extend(t.a if t.op == "or" else (t,))
    if not cs:
        return FALSE
    uniq = []
    for t in cs:
        if t not in uniq:
            uniq.append(t)
    if len(uniq) == 1:
        return uniq[0]
    lists = [list(conj(t)) for t in uniq]
    common = [x for x in lists[0] if all(x in l for l in lists[1:])]
    rest = [[x for x in l if x not in common] for l in lists]
    if any(not r for r in rest):
        return and_(*common)
    changed = True
    while changed and len(rest) > 1:
        changed = False
        for i in range(len(rest)):
            for j in range(i + 1, len(rest)):
                a, b = rest[i], rest[j]
                sa, sb = {x.id for x in a}, {x.id for x in b}
                # resolution: X&c | X&~c -> X ; absorption: X | X&y -> X
                if sa <= sb:
                    del rest[j]
                    changed = True
                    break
                if sb <= sa:
                    del rest[i]
                    changed = True
                    break
                da = [x for x in a if x.id not in sb]
                db = [x for x in b if x.id not in sa]
                if len(da) == 1 and len(db) == 1 and not_(da[0]) is db[0]:
                    new = [x for x in a if x is not da[0]]
                    del rest[j]
                    rest[i] = new
                    changed = True
                    break
                # c | ~c&X -> c | X
                if len(da) == 1 and len(a) == 1 and not_(da[0]).id in sb:
                    rest[j] = [x for x in b if x is not not_(da[0])]
                    changed = True
                    break
                if len(db) == 1 and len(b) == 1 and not_(db[0]).id in sa:
                    rest[i] = [x for x in a if x is not not_(db[0])]
                    changed = True
                    break
                # ~(p&q) | p&q -> True
                if len(a) == 1 and a[0] is not_(and_(*b)) or len(b) == 1 and b[0] is not_(and_(*a)):
                    return and_(*common)
            if changed:
                break
    if any(not r for r in rest):
        return and_(*common)
    if len(rest) == 1:
        return and_(*common, *rest[0])
    ds = [and_(*r) for r in rest]
    return and_(*common, mk("or", *ds))


def gt0(p: T) -> T:
    if isc(p):
        return C(cv(p) > 0)
    if p.op == "poly":
        c, ms = p.a
        from math import gcd

        g = 0
        for _, v in ms:
            g = gcd(g, abs(v))
        if g > 1:  # g*q + c > 0  <=>  q > -c/g  <=>  q + ceil(c/g) > 0
            return gt0(_mk_poly(-((-c) // g), {k: v // g for k, v in ms}))
    return mk("gt0", p)


def lt(a: T, b: T) -> T:
    return gt0(sub(b, a))


def le(a: T, b: T) -> T:
    # a <= b  <=>  b - a + 1 > 0 (integers)
    return gt0(add(sub(b, a), ONE))


def eq(a: T, b: T) -> T:
    if a is b:
        return TRUE
    ka, kb = kind(a), kind(b)
    if isc(a) and isc(b):
        return C(cv(a) == cv(b))
    num = ("int", "bool")
    if ka in num and kb in num:
        d = sub(a, b)
        if isc(d):
            return C(cv(d) == 0)
        if d.op == "poly":
            c, ms = d.a
            if ms[0][1] < 0:
                d = neg(d)
        return mk("eq0", d)
    if a.op == "enum" and b.op == "enum":
        return C(a is b)
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "static" and b.op == "static" and a.a[0].__class__ is b.a[0].__class__:
        return C(a is b)
    if "none" in (ka, kb) and ka and kb and ka != kb:
        return FALSE
    if ka and kb and ka in ("int", "bytes", "str") and kb in ("int", "bytes", "str") and ka != kb:
        return FALSE
    if a.op == "ite" and isc(b):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and isc(a):
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def isnone(t: T) -> T:
    if t.op == "const":
        return C(cv(t) is None)
    if t.op == "ite":
        return ite(t.a[0], isnone(t.a[1]), isnone(t.a[2]))
    k = kind(t)
    if k is not None and k != "none":
        return FALSE
    if t.op in ("bi", "static", "ty", "ref", "bound", "enum"):
        return FALSE
    return mk("isnone", t)


def ite(c: T, a: T, b: T) -> T:
    if a is b:
        return a
    if isc(c):
        return a if cv(c) else b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE and kind(b) == "bool":
        return or_(c, b)
    if b is FALSE and kind(a) == "bool":
        return and_(c, a)
    if a is FALSE and kind(b) == "bool":
        return and_(not_(c), b)
    if b is TRUE and kind(a) == "bool":
        return or_(not_(c), a)
    # nested tests of the same condition
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "undef" and b.op != "undef":
        pass
    return mk("ite", c, a, b)


def truth(t: T) -> T:
    k = kind(t)
    if t.op == "const":
        return C(bool(cv(t)))
    if k == "bool":
        return t
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if k == "int":
        return not_(eq(t, ZERO))
    if t.op in ("enum",):
        return mk("truth", t)
    if t.op == "ref":
        return mk("truth", t)
    if k == "obj" or k == "static":
        return TRUE
    if t.op == "tuple":
        return C(bool(t.a))
    if k in ("seq", "map", "set"):
        return gt0(length(t))
    if k in ("bytes", "str"):
        return gt0(length(t))
    return mk("truth", t)


# whether a read may come back with less than was asked for
SHORT = [False]


def length(t: T) -> T:
    op = t.op
    if op == "const":
        v = cv(t)
        return C(len(v)) if isinstance(v, (bytes, str)) else UNDEF
    if op in ("list", "tuple", "set"):
        if op == "set":
            return mk("len", t)
        return C(len(t.a))
    if op == "dict":
        return C(len(t.a) // 2)
    if op == "append":
        return add(length(t.a[0]), ONE)
    if op == "concat":
        return add(length(t.a[0]), length(t.a[1]))
    if op in ("enumerate", "sorted", "reversed", "tolist"):
        return length(t.a[0])
    if op in ("items", "keys", "values"):
        return length(t.a[0])
    if op == "range":
        lo, hi, st = t.a
        if st is ONE:
            d = sub(hi, lo)
            return mk("max0", d) if not isc(d) else C(max(cv(d), 0))
        if isc(lo) and isc(hi) and isc(st):
            return C(len(range(cv(lo), cv(hi), cv(st))))
        return mk("len", t)
    if op == "sarr":
        return t.a[3]
    if op == "bytes" and not SHORT[0]:
        return t.a[2]
    if op == "ite":
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    return mk("len", t)


INT_OPS.add("max0")
INT_OPS.add("pmul")
INT_OPS.add("min")
INT_OPS.add("max")
INT_OPS.add("sum")


# ---------------------------------------------------------------- traversal and display
def subterms(t: T):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, T):
                                    yield w


def show(t, depth=6) -> str:
    if not isinstance(t, T):
        if isinstance(t, Static):
            return str(getattr(t.v, "name", t.v))
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(getattr(t, "name", t)) if not isinstance(t, (int, str, bytes, K)) else str(t)
    if depth < 0:
        return "…"
    if t.op == "const":
        v = cv(t)
        return hex(v) if isinstance(v, int) and not isinstance(v, bool) and v > 4096 else repr(v)
    if t.op == "poly":
        c, ms = t.a
        parts = []
        for k, v in ms:
            s = "*".join(show(x, depth - 1) for x in k)
            parts.append(s if v == 1 else f"{v}*{s}")
        if c:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")"
    if t.op == "static":
        return f"<{show(t.a[0])}>"
    if t.op == "lv":
        return f"v{t.a[0]}.{t.a[1]}"
    if t.op == "ref":
        return f"&{t.a[0]}"
    if t.op == "sym":
        return str(t.a[0])
    return f"{t.op}(" + ", ".join(show(x, depth - 1) for x in t.a) + ")"
