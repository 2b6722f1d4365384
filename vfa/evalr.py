"""Valuation of value-flow terms (random interpretation of the value graph).

A World assigns values to the leaves of the graph: symbols, attributes of opaque objects and the bytes of
streams.  Terms are then valued bottom up; recurrences are followed for a bounded number of steps.  Nothing
of the analysed program is executed: only terms produced by the static analysis are valued.
"""
from __future__ import annotations

import ast
import bisect
import random
import re
import uuid as _uuid
import warnings
import zlib

from . import terms as tm
from .cdef import CType
from .terms import C, NONE, T, UNDEF, cv

warnings.simplefilter("ignore", SyntaxWarning)  # of literals in the analysed data


class Unknown(Exception):
    """The analysis has no exact value here."""


class Diverges(Unknown):
    """The recurrence comes back to an earlier state, or does not end within its bound."""


class EvalErr(Exception):
    """The analysed program would fail here with a Python error."""

    def __init__(self, name, detail=""):
        super().__init__(name, detail)
        self.name = name


class HVal:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, HVal) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def base(self, off):
        return self, off

    def __repr__(self):
        return f"stream{self.key}"


class RangeV:
    __slots__ = ("fh", "off", "size")

    def __init__(self, fh, off, size):
        self.fh, self.off, self.size = fh, off, size

    @property
    def key(self):
        return ("range", ckey(self.fh), self.off, self.size)

    def __eq__(self, o):
        return isinstance(o, RangeV) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def base(self, off):
        return as_handle(self.fh).base(self.off + off)

    def __repr__(self):
        return f"range({self.fh},{self.off},{self.size})"


class Opaque:
    __slots__ = ("key", "ty")

    def __init__(self, key, ty=None):
        self.key, self.ty = key, ty

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"<{self.key}>"


class RecVal:
    __slots__ = ("cls", "uid", "fields", "env")

    def __init__(self, cls, uid, fields, env):
        self.cls, self.uid, self.fields, self.env = cls, uid, fields, env

    @property
    def key(self):
        return ("rec", self.uid)

    def __eq__(self, o):
        return isinstance(o, RecVal) and o.uid == self.uid

    def __hash__(self):
        return hash(self.uid)

    def __repr__(self):
        return f"rec {getattr(self.cls, 'name', self.cls)}{self.uid}"


class ObjVal:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    @property
    def key(self):
        return ("obj", self.oid)

    def __eq__(self, o):
        return isinstance(o, ObjVal) and o.oid == self.oid

    def __hash__(self):
        return hash(("obj", self.oid))

    def __repr__(self):
        return f"obj{self.oid}"


class StructVal:
    __slots__ = ("ct", "src", "pos")

    def __init__(self, ct, src, pos):
        self.ct, self.src, self.pos = ct, src, pos

    @property
    def key(self):
        src, n = self.src, self.ct.fixed_size()
        if isinstance(src, (Seg, bytes)):
            part = (src if isinstance(src, Seg) else Seg([src])).slice(self.pos, None if n is None else self.pos + n)
            if len(part.segs) == 1 and isinstance(part.segs[0], tuple):
                # the same bytes of a stream, whichever way they were read
                return ("struct", self.ct.name, ckey(part.segs[0][0]), part.segs[0][1])
            return ("struct", self.ct.name, tuple((ckey(s[0]), *s[1:]) if isinstance(s, tuple) else s for s in part.segs))
        return ("struct", self.ct.name, ckey(src), self.pos)

    def __eq__(self, o):
        return isinstance(o, StructVal) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


def ckey(v):
    return v.key if hasattr(v, "key") else v


def as_handle(v):
    if isinstance(v, (HVal, RangeV)):
        return v
    if isinstance(v, (Opaque, RecVal, ObjVal)):
        return HVal(v.key)
    if v is None:
        raise EvalErr("AttributeError", "None used as stream")
    if isinstance(v, (int, float, str, bytes, list, dict, StructVal)):
        raise EvalErr("AttributeError", type(v).__name__ + " used as stream")
    raise Unknown(f"not a stream: {v!r}")


class HeapV(list):
    """Value of the explicit heap."""


class HAddr:
    """Address of a dictionary in the explicit heap."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, HAddr) and o.n == self.n

    def __hash__(self):
        return hash(("haddr", self.n))

    def __repr__(self):
        return f"@{self.n}"


class HObj(HAddr):
    """Address of an object in the explicit heap."""

    __slots__ = ()


class Seg:
    """Byte string made of pieces: literal bytes or (stream, position, length)."""

    __slots__ = ("segs", "n")

    def __init__(self, segs):
        out = []
        n = 0
        for s in segs:
            ln = len(s) if isinstance(s, bytes) else s[2]
            if ln <= 0:
                continue
            n += ln
            if out:
                p = out[-1]
                if isinstance(p, bytes) and isinstance(s, bytes):
                    out[-1] = p + s
                    continue
                if isinstance(p, tuple) and isinstance(s, tuple) and p[0] == s[0] and p[1] + p[2] == s[1]:
                    out[-1] = (p[0], p[1], p[2] + s[2])
                    continue
            out.append(s)
        self.segs = out
        self.n = n

    def slice(self, a, b):
        a, b, _ = slice(a, b).indices(self.n)
        out = []
        p = 0
        for s in self.segs:
            ln = len(s) if isinstance(s, bytes) else s[2]
            lo, hi = max(a - p, 0), min(b - p, ln)
            if lo < hi:
                out.append(s[lo:hi] if isinstance(s, bytes) else (s[0], s[1] + lo, hi - lo))
            p += ln
        return Seg(out)


class NoOrder:
    """A value without an order; equal to itself only."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, NoOrder) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __lt__(self, o):
        raise EvalErr("TypeError", "order")

    __gt__ = __le__ = __ge__ = __lt__


class Frame:
    __slots__ = ("L", "i", "prev", "base", "env", "serial")

    def __init__(self, L, i, prev, base, serial):
        self.L, self.i, self.prev, self.base, self.serial = L, i, prev, base, serial
        self.env = dict(base)
        self.env[L.uid] = self


STRUCT_METHODS = {"dumps", "write", "read", "reads", "cs", "size", "alignment", "fields", "dynamic", "add_field", "commit", "start_update", "lookup"}
WHENCE = {("bi", f"{m}.SEEK_{k}"): i for m in ("io", "os") for i, k in enumerate(("SET", "CUR", "END"))}
MAXIT = 48
PURE_METHODS = {"method:items", "method:keys", "method:values", "method:get"}
MAXSEQ = 4096


class World:
    def __init__(self, seed, domains=None, aff=None, types=None, opts=None):
        self.seed = seed
        self.rng = random.Random(seed * 7919 + 13)
        self.mem: dict = {}
        self.vals: dict = {}
        self.domains = domains or {}
        self.aff = aff
        self.last: dict = {}
        self.opts = opts or {}
        self.p_small = self.rng.choice((0.75, 0.75, 0.9, 0.6))
        # per leaf: how likely it takes one of the values it is compared with
        self.pol: dict = {}
        self.parent = None

    def paff(self, tid):
        p = self.pol.get(tid)
        if p is None:
            rng = self.keyed(("pol", tid))
            if self.parent is not None and tid in self.parent and rng.random() < 0.85:
                p = self.parent[tid]
            else:
                r = rng.random()
                p = 0.97 if r < 0.5 else 0.6 if r < 0.7 else 0.04
            self.pol[tid] = p
        return p

    def keyed(self, key):
        return random.Random(zlib.crc32(repr((self.seed, key)).encode()))

    # ---------------------------------------------------------------- integers
    def pick_int(self, rng, aff, lo, hi, tid=None):
        if aff and rng.random() < self.paff(tid):
            xs = [x for x in aff if isinstance(x, int) and lo <= x <= hi]
            if xs:
                if rng.random() < 0.12:
                    a = rng.choice(xs)
                    b = rng.choice(xs)
                    v = a | b if rng.random() < 0.5 else a + rng.choice((-1, 1))
                    if lo <= v <= hi:
                        return v
                return rng.choice(xs)
        rel = self.aff.rel.get(tid) if self.aff is not None and tid is not None else None
        if rel and rng.random() < 0.45:
            xs = [v for r in rel for v in self.last.get(r, ())]
            xs = [v + rng.choice((0, 0, 0, 0, 1, -1)) for v in xs]
            xs = [x for x in xs if lo <= x <= hi]
            if xs:
                return rng.choice(xs)
        r = rng.random()
        if r < self.p_small:
            return rng.randint(max(lo, 0), min(hi, 5))
        if r < 0.90:
            return rng.randint(max(lo, 0), min(hi, 70))
        if r < 0.96:
            return rng.randint(max(lo, 0), min(hi, 5000))
        if lo < 0 and r < 0.98:
            return rng.randint(max(lo, -4), -1)
        return rng.randint(lo, hi)

    def note(self, tid, v):
        if tid is None:
            return
        l = self.last.setdefault(tid, [])
        l.append(v)
        if len(l) > 6:
            del l[0]

    def read_int(self, h, pos, size, endian, signed, tid=None):
        if not isinstance(pos, int):
            raise Unknown("position")
        if pos < 0:
            raise EvalErr("ValueError", "negative seek")
        b, p = as_handle(h).base(pos)
        key = b.key
        mem = self.mem
        have = [mem.get((key, p + i)) for i in range(size)]
        if all(x is None for x in have):
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
            rng = self.keyed(("int", key, p, size))
            aff = self.aff.ints.get(tid) if self.aff is not None else None
            v = self.pick_int(rng, aff, lo, hi, tid)
            raw = v.to_bytes(size, "little" if endian == "<" else "big", signed=signed)
            for i in range(size):
                mem[(key, p + i)] = raw[i]
        else:
            raw = self.read_bytes(h, pos, size)
            v = int.from_bytes(raw, "little" if endian == "<" else "big", signed=signed)
        self.note(tid, v)
        return v

    def read_bytes(self, h, pos, n, tid=None):
        if pos < 0:
            raise EvalErr("ValueError", "negative seek")
        if n > 200000:
            raise Unknown("large read")
        b, p = as_handle(h).base(pos)
        key = b.key
        mem = self.mem
        aff = self.aff.raws.get(tid) if self.aff is not None and tid is not None else None
        rng = self.keyed(("raw", key, p, n))
        if all(mem.get((key, p + i)) is None for i in range(min(n, 64))):
            v = None
            if aff and rng.random() < self.paff(tid):
                v = rng.choice(sorted(aff))
            elif n in (8, 16, 20, 24, 32) and rng.random() < 0.6:
                v = random.Random(n * 31 + rng.randrange(3)).randbytes(n)
            elif rng.random() < 0.15:
                v = b"\0" * min(n, 4096)
            if v is not None:
                v = v[:n] + b"\0" * min(max(n - len(v), 0), 4096)
                for i, x in enumerate(v):
                    mem.setdefault((key, p + i), x)
        out = bytearray(n)
        for i in range(n):
            x = mem.get((key, p + i))
            if x is None:
                r = rng.random()
                x = 0 if r < 0.35 else rng.choice(b"abcxyz019 -_") if r < 0.85 else rng.randrange(256)
                mem[(key, p + i)] = x
            out[i] = x
        return bytes(out)

    def ssize(self, h):
        if isinstance(h, RangeV):
            return h.size
        k = ("ssize", as_handle(h).key)
        if k not in self.vals:
            f = self.domains.get("@ssize")
            rng = self.keyed(k)
            self.vals[k] = f(rng) if f else rng.choice((rng.randint(0, 8) * 512, 1 << 20, (1 << 20) + rng.randrange(1, 4) * 512 + rng.choice((0, 0, 100)), 65536 * 4, 1 << 30))
        return self.vals[k]

    # ---------------------------------------------------------------- typed opaque values
    def sym(self, name, ty, tid=None):
        k = ("sym", name)
        if k not in self.vals:
            d = self.domains.get(name)
            if callable(d):
                self.cur_ty = ty
                v = d(self.keyed(k), self)
            elif isinstance(d, (list, tuple)):
                v = self.keyed(k).choice(d)
            else:
                v = self.of_type(ty, k, tid)
            self.vals[k] = v
        v = self.vals[k]
        if isinstance(v, int):
            self.note(tid, v)
        return v

    def attr(self, okey, name, ty, tid=None):
        k = ("attr", okey, name)
        if k not in self.vals:
            d = self.domains.get("." + name)
            if callable(d):
                self.cur_ty = ty
                v = d(self.keyed(k), self)
            elif isinstance(d, (list, tuple)):
                v = self.keyed(k).choice(d)
            else:
                v = self.of_type(ty, k, tid, name)
            self.vals[k] = v
        v = self.vals[k]
        if isinstance(v, int):
            self.note(tid, v)
        return v

    def called(self, fname, key, ty):
        """The value an uninterpreted function gives for these arguments."""
        d = self.domains.get(fname + "()")
        if d is None and (ty is None or ty[0] not in ("int", "bytes", "str", "bool", "none", "union")):
            return Opaque(key, ty)
        if key not in self.vals:
            if callable(d):
                self.cur_ty, self.cur_key = ty, key
                self.vals[key] = d(self.keyed(key), self)
            elif isinstance(d, (list, tuple)):
                self.vals[key] = self.keyed(key).choice(d)
            else:
                self.vals[key] = self.of_type(ty, key)
        return self.vals[key]

    def of_type(self, ty, key, tid=None, name=None):
        rng = self.keyed(("ty", key))
        if ty is None:
            # unknown type: integers are the common case; affinity may tell otherwise
            if self.aff is not None:
                xs = set(self.aff.any.get(tid, ())) | set(self.aff.names.get(name, ()))
                if xs and rng.random() < self.paff(name or tid):
                    return rng.choice(sorted(xs, key=repr))
            # nothing is known of it but that it is the same each time
            return Opaque(key)
        k = ty[0]
        if k == "union":
            xs = [x for x in ty[1] if x]
            if ("none",) in xs and rng.random() < 0.75:
                xs = [x for x in xs if x != ("none",)]
            return self.of_type(rng.choice(xs), key, tid, name)
        if k == "none":
            return None
        aff = set()
        if self.aff is not None:
            aff = set(self.aff.any.get(tid, ())) | set(self.aff.names.get(name, ()))
        if k == "int":
            return self.pick_int(rng, sorted(x for x in aff if isinstance(x, int)), -4 if rng.random() < 0.03 else 0, 1 << 40, tid)
        if k == "bool":
            return rng.random() < 0.5
        if k == "str":
            xs = sorted(x for x in aff if isinstance(x, str))
            if xs and rng.random() < 0.7:
                return rng.choice(xs)
            return rng.choice(("a", "b", "pv0", "pv1", "", "name", "x y"))
        if k == "bytes":
            xs = sorted(x for x in aff if isinstance(x, bytes))
            if xs and rng.random() < 0.8:
                return rng.choice(xs)
            return rng.choice((b"a", b"b", b"", b"data", b"\0" * 8))
        if k == "float":
            return rng.random()
        if k == "list":
            n = rng.choice((0, 1, 2, 3, 4))
            return [self.of_type(ty[1], (key, i)) for i in range(n)]
        if k == "set":
            return frozenset(self.of_type(ty[1], (key, i)) for i in range(rng.randrange(3)))
        if k == "dict":
            n = rng.choice((0, 1, 2, 3))
            out = {}
            for i in range(n):
                kk = self.of_type(ty[1], (key, "k", i))
                out[kk] = self.of_type(ty[2], (key, "v", i))
            return out
        if k == "tuple":
            return tuple(self.of_type(x, (key, i)) for i, x in enumerate(ty[1]))
        if k == "stream":
            return HVal(key)
        if k == "token":
            return Opaque(("tok", rng.randrange(3)))
        if k == "cls":
            c = ty[1]
            if c.flavour == "enum":
                return ("enum", c.name, rng.choice(sorted(c.member_values)))
            if c.flavour == "intenum":
                return rng.choice([cv(v) for v in c.members.values()])
            return Opaque(key, ty)
        if k == "struct":
            return StructVal(ty[1], HVal(("struct", key)), 0)
        raise Unknown(f"type {ty}")


class Evaluator:
    def __init__(self, an, world, heap=None):
        self.an = an
        self.w = world
        self.heap = heap or {}
        self.memo: dict = {}
        self.runs: dict = {}
        self.serial = 0
        self.steps = 0
        self.passes: dict = {}
        self.max_steps = 400000

    # ---------------------------------------------------------------- core
    def ev(self, t: T, env):
        op = t.op
        if op == "const":
            return t.a[0].v
        fl = t.fl
        if fl is None:
            fl = self.an.fl(t)
        if fl:
            try:
                key = (t.id, *[env[l].serial if not isinstance(l, tuple) else env[l][1] for l in sorted(fl, key=str)])
            except KeyError:
                raise Unknown("free loop variable")
        else:
            key = t.id
        m = self.memo
        if key in m:
            r = m[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unknown("steps")
        try:
            r = getattr(self, "e_" + op)(t, env)
        except (Unknown, EvalErr) as e:
            m[key] = e
            raise
        except ZeroDivisionError:
            e = m[key] = EvalErr("ZeroDivisionError")
            raise e
        except RecursionError:
            raise Unknown("depth")
        m[key] = r
        return r

    def evs(self, ts, env):
        return [self.ev(x, env) for x in ts]

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if v is None:
            raise EvalErr("TypeError", "None in arithmetic")
        if isinstance(v, (Seg, bytes, str, list, tuple, dict, HVal, RangeV, StructVal)) and not (isinstance(v, tuple) and v[:1] == ("enum",)):
            raise EvalErr("TypeError", "arithmetic on " + type(v).__name__)
        if isinstance(v, Opaque) and v.key in WHENCE:
            return WHENCE[v.key]
        raise Unknown(f"number from {v!r}")

    def e_undef(self, t, env):
        raise EvalErr("UnboundLocalError")

    def e_top(self, t, env):
        raise Unknown(t.a[0])

    def e_recback(self, t, env):
        raise Unknown("cyclic record")

    def e_sym(self, t, env):
        return self.w.sym(t.a[0], self.an.types.get(t.id), t.id)

    def e_static(self, t, env):
        p = t.a[0]
        return Opaque(("static", getattr(p, "name", str(p))))

    def e_owner(self, t, env):
        return Opaque(("owner", t.a[0]))

    def e_bi(self, t, env):
        return Opaque(("bi", t.a[0]))

    def e_bound(self, t, env):
        return Opaque(("bound", ckey(self.ev(t.a[0], env)), t.a[1].a[0].name))

    def e_bm(self, t, env):
        o = self.ev(t.a[0], env)
        if o is None or isinstance(o, (int, str, bytes)) and not hasattr(o, t.a[1]):
            raise EvalErr("AttributeError", t.a[1])
        if isinstance(o, StructVal) and not self.an._has_field(o.ct, t.a[1]) and t.a[1] not in STRUCT_METHODS:
            raise EvalErr("AttributeError", t.a[1])
        if isinstance(o, ObjVal) and self.lacks(o, t.a[1]) or isinstance(o, RecVal) and hasattr(o.cls, "mro") and o.cls.find(t.a[1]) is None \
                and t.a[1] not in o.fields and self.an.lacks(o.cls, t.a[1]):
            raise EvalErr("AttributeError", t.a[1])
        raise Unknown(f"method value {t.a[1]}")

    def lacks(self, o, name):
        """An object of an analysed class, all of whose bases are analysed too, without such an attribute."""
        cls = self.an.objs[o.oid].cls
        if not hasattr(cls, "find") or cls.find(name) is not None or (o.oid, name) in self.heap:
            return False
        return not any(b.op == "bi" and b.a[0] not in ("object", "Exception") for c in cls.mro() for b in c.bases) and getattr(cls, "flavour", None) is None

    def e_ty(self, t, env):
        return Opaque(("ty", ast.dump(t.a[0].n)))

    def e_enum(self, t, env):
        return ("enum", t.a[0].name, t.a[1])

    def e_exc(self, t, env):
        return Opaque(("exc", getattr(t.a[0], "name", t.a[0])))

    def e_new(self, t, env):
        return Opaque(("new", t.a[0].name, self.w_key(self.ev(t.a[1], env))), ("cls", t.a[0]))

    def w_key(self, v):
        return self.canon(v)

    def e_raises(self, t, env):
        v = self.ev(t.a[0], env)
        k = ("raises", v.key)
        if k not in self.w.vals:
            self.w.vals[k] = self.w.keyed(k).random() < 0.6
        return self.w.vals[k]

    def size_kind(self, h):
        return self.w.keyed(("size kind", h.key)).choice(("number", "number", "none", "absent"))

    def e_sattr(self, t, env):
        h = as_handle(self.ev(t.a[0], env))
        if isinstance(h, HVal):
            k = self.size_kind(h)
            if k == "absent":
                raise EvalErr("AttributeError", "size")
            if k == "none":
                return None
        return self.w.ssize(h)

    def e_isdef(self, t, env):
        try:
            self.ev(t.a[0], env)
        except EvalErr as e:
            if e.name == "UnboundLocalError":
                return False
            raise
        return True

    def e_hasattr(self, t, env):
        o = self.ev(t.a[0], env)
        if isinstance(o, HVal) and self.ev(t.a[1], env) == "size":
            return self.size_kind(o) != "absent"
        k = ("hasattr", ckey(o), self.ev(t.a[1], env))
        return self.w.keyed(k).random() < 0.5

    # arithmetic
    def e_poly(self, t, env):
        c, ms = t.a
        r = c
        for k, v in ms:
            p = v
            for x in k:
                p *= self.num(self.ev(x, env))
            r += p
        return r

    def e_pmul(self, t, env):
        return self.num(self.ev(t.a[0], env)) * self.num(self.ev(t.a[1], env))

    def e_fdiv(self, t, env):
        return self.num(self.ev(t.a[0], env)) // self.num(self.ev(t.a[1], env))

    def e_mod(self, t, env):
        a = self.ev(t.a[0], env)
        if isinstance(a, (str, bytes)):
            raise Unknown("format")
        return self.num(a) % self.num(self.ev(t.a[1], env))

    def e_band(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        return a & b if isinstance(a, frozenset) else self.num(a) & self.num(b)

    def e_bor(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(a, frozenset):
            return a | b
        if isinstance(a, dict):
            return {**a, **b}
        return self.num(a) | self.num(b)

    def e_bxor(self, t, env):
        return self.num(self.ev(t.a[0], env)) ^ self.num(self.ev(t.a[1], env))

    def e_shl(self, t, env):
        n = self.num(self.ev(t.a[1], env))
        if n < 0:
            raise EvalErr("ValueError")
        if n > 4096:
            raise Unknown("shift")
        return self.num(self.ev(t.a[0], env)) << n

    def e_shr(self, t, env):
        n = self.num(self.ev(t.a[1], env))
        if n < 0:
            raise EvalErr("ValueError")
        return self.num(self.ev(t.a[0], env)) >> n

    def e_pow(self, t, env):
        a, b = self.num(self.ev(t.a[0], env)), self.num(self.ev(t.a[1], env))
        if abs(b) > 512:
            raise Unknown("pow")
        return a ** b

    def e_max0(self, t, env):
        return max(self.num(self.ev(t.a[0], env)), 0)

    def e_min(self, t, env):
        return min(self.num(self.ev(x, env)) for x in t.a)

    def e_max(self, t, env):
        return max(self.num(self.ev(x, env)) for x in t.a)

    def e_sum(self, t, env):
        return sum(self.num(x) for x in self.seq(t.a[0], env))

    def e_minmax(self, t, env):
        which, s, key, default = t.a
        xs = self.seq(s, env)
        if not xs:
            if default is UNDEF:
                raise EvalErr("ValueError")
            return self.ev(default, env)
        ks = [self.apply(key, env, x) for x in xs] if key is not NONE else xs
        ks = [self.ordkey(k) for k in ks]
        try:
            best = (min if which == "min" else max)(range(len(xs)), key=lambda i: ks[i])
        except TypeError:
            raise EvalErr("TypeError", "order") from None
        return xs[best]

    def ordkey(self, k):
        if isinstance(k, tuple):
            return tuple(self.ordkey(x) for x in k)
        if isinstance(k, Seg):
            return self.mat(k)
        if isinstance(k, Opaque):
            if k.key[0] in ("tok", "app"):
                return repr(k.key)
            return NoOrder(k)
        if isinstance(k, (RecVal, ObjVal)):
            raise EvalErr("TypeError", "order")
        return k

    # booleans
    def truthv(self, v):
        if isinstance(v, Seg):
            return self.seglen(v) > 0
        if isinstance(v, (HVal, RangeV, Opaque, RecVal, ObjVal, StructVal)):
            if isinstance(v, ObjVal):
                c = self.content(v)
                if c is not None:
                    return self.truthv(c)
            return True
        if type(v) is HAddr:
            raise Unknown("truth of an address")
        return bool(v)

    def b(self, t, env):
        return self.truthv(self.ev(t, env))

    def e_not(self, t, env):
        return not self.b(t.a[0], env)

    def e_and(self, t, env):
        unk = None
        for x in t.a:
            try:
                if not self.b(x, env):
                    return False
            except Unknown as e:
                unk = unk or e
            except EvalErr:
                if unk:
                    raise unk
                raise
        if unk:
            raise unk
        return True

    def e_or(self, t, env):
        unk = None
        for x in t.a:
            try:
                if self.b(x, env):
                    return True
            except (Unknown, EvalErr) as e:
                unk = unk or e
        if unk:
            raise unk
        return False

    def e_gt0(self, t, env):
        return self.num(self.ev(t.a[0], env)) > 0

    def e_eq0(self, t, env):
        return self.num(self.ev(t.a[0], env)) == 0

    def e_eq(self, t, env):
        return self.equal(self.ev(t.a[0], env), self.ev(t.a[1], env), (t.a[0].id, t.a[1].id))

    def equal(self, a, b, tids=(None, None)):
        if isinstance(a, Seg) or isinstance(b, Seg):
            if not isinstance(a, (Seg, bytes)) or not isinstance(b, (Seg, bytes)):
                return False
            return self.mat(a, tids[0]) == self.mat(b, tids[1])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "enum" and isinstance(y, (bytes, int, str)):
                raw = self.enum_raw(x)
                return raw == y
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.key == b.key
        if isinstance(a, ObjVal) or isinstance(b, ObjVal):
            ca = self.content(a) if isinstance(a, ObjVal) else a
            cb = self.content(b) if isinstance(b, ObjVal) else b
            if ca is None or cb is None:
                return isinstance(a, ObjVal) and isinstance(b, ObjVal) and a.oid == b.oid
            return self.equal(ca, cb)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, RecVal) and isinstance(b, RecVal):
            if a.uid == b.uid:
                return True
            if getattr(a.cls, "dataclass", None) is not None or getattr(a.cls, "flavour", None) == "namedtuple":
                raise Unknown("structural record equality")
            return False
        return a == b

    def enum_raw(self, e):
        for m in self.an.mods.values():
            v = m.env.get(e[1])
            if v is not None and v.op == "static" and getattr(v.a[0], "flavour", None) == "enum":
                raw = v.a[0].member_values.get(e[2])
                if "bytes" in v.a[0].builtin_bases() and raw is not None and raw.op == "const" and isinstance(cv(raw), bytes):
                    return cv(raw)
        return None

    def e_is(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        return ckey(a) == ckey(b) if not isinstance(a, (int, str, bytes, Seg)) else self.equal(a, b)

    def e_isnone(self, t, env):
        try:
            return self.ev(t.a[0], env) is None
        except EvalErr as e:
            if e.name == "UnboundLocalError":
                raise
            raise

    def e_truth(self, t, env):
        return self.truthv(self.ev(t.a[0], env))

    def e_in(self, t, env):
        x, c = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(c, ObjVal):
            c = self.content(c)
        if isinstance(c, (Seg, bytes)):
            c = self.mat(c)
            return (self.mat(x) if isinstance(x, Seg) else x) in c
        if isinstance(c, str):
            if not isinstance(x, str):
                raise EvalErr("TypeError")
            return x in c
        if isinstance(c, dict):
            return self.hk(x) in c
        if isinstance(c, frozenset):
            return self.hk(x) in c
        if isinstance(c, range):
            return x in c
        if isinstance(c, (list, tuple)):
            return any(self.equal(x, y) for y in c)
        if c is None or isinstance(c, (int, float)):
            raise EvalErr("TypeError")
        raise Unknown("in")

    def e_isinst(self, t, env):
        v = self.ev(t.a[0], env)
        c = t.a[1]
        if c.op == "const":
            want = cv(c)
            table = {"int": int, "str": str, "bytes": (bytes, Seg), "list": list, "tuple": tuple, "dict": dict, "bool": bool,
                     "set": frozenset, "float": float, "NoneType": type(None)}
            if want in table:
                if isinstance(v, ObjVal):
                    v = self.content(v)
                if want == "tuple" and isinstance(v, tuple) and v[:1] == ("enum",):
                    return False
                return isinstance(v, table[want])
            return False
        cls = None
        if isinstance(v, RecVal):
            cls = v.cls
        elif isinstance(v, ObjVal):
            cls = self.an.objs[v.oid].cls
        elif isinstance(v, Opaque) and v.ty and v.ty[0] == "cls":
            cls = v.ty[1]
        elif isinstance(v, tuple) and v[:1] == ("enum",):
            return c.a[0].name == v[1]
        if cls is not None and hasattr(cls, "mro") and c.op == "static":
            return c.a[0] in cls.mro()
        if isinstance(v, StructVal):
            return c.op == "static" and c.a[0] is v.ct
        return False

    def e_issub(self, t, env):
        raise Unknown("issubclass")

    def e_any(self, t, env):
        return any(self.truthv(x) for x in self.seq(t.a[0], env))

    def e_all(self, t, env):
        return all(self.truthv(x) for x in self.seq(t.a[0], env))

    def e_ite(self, t, env):
        return self.ev(t.a[1] if self.b(t.a[0], env) else t.a[2], env)

    # loops
    def e_lv(self, t, env):
        fr = env[t.a[0]]
        if fr.prev is None:
            return self.ev(fr.L.inits[t.a[1]], fr.base)
        # unwind iteratively from the earliest unknown iteration to bound the Python stack
        chain = []
        f = fr
        while f.prev is not None and (t.id, f.prev.serial) not in self.memo and len(chain) < MAXIT + 2:
            chain.append(f)
            f = f.prev
            if self._lv_known(t, f):
                break
        for g in reversed(chain[1:]):
            self.ev(t, g.env)
        return self.ev(fr.L.nexts[t.a[1]], fr.prev.env)

    def _lv_known(self, t, f):
        key = (t.id, f.serial)
        return key in self.memo

    def e_it(self, t, env):
        return env[t.a[0]].i

    def run(self, uid, env):
        L = self.an.loops[uid]
        if L._fl is None:
            s = frozenset()
            for x in L.inits + L.nexts + [g for _, g in L.exits]:
                s |= self.an.fl(x)
            for n in L.bound.values():
                # the states compared at a recursion bound may depend on more of the loops around
                for x in (x for st in self.an.bounds[n][1] for x in st):
                    s |= self.an.fl(x) & set(L.outer)
            L._fl = sorted((s - {uid}), key=str)
        try:
            key = (uid, *[env[l].serial if not isinstance(l, tuple) else env[l][1] for l in L._fl])
        except KeyError:
            raise Unknown("free loop variable")
        if key in self.runs:
            r = self.runs[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._run(L, {l: env[l] for l in L._fl})
        except (Unknown, EvalErr) as e:
            self.runs[key] = e
            raise
        self.runs[key] = r
        return r

    def _run(self, L, base):
        fr = saved = None
        for i in range(MAXIT):
            self.serial += 1
            fr = Frame(L, i, fr, base, self.serial)
            for k, (kind, g) in enumerate(L.exits):
                if self.b(g, fr.env):
                    if k in L.bound:
                        self.recursion(L.bound[k], fr.env)
                    return k, fr
            if self.an.diverge and isinstance(L.node, ast.While):
                self.passes[L.where] = max(self.passes.get(L.where, 0), i + 1)
                now = self.loop_state(L, fr)
                if now is not None and now == saved:
                    raise Diverges(f"the loop at {L.where} comes back to an earlier state")
                if saved is None or i & (i - 1) == 0:
                    saved = now
        if self.an.diverge and isinstance(L.node, ast.While):
            raise Diverges(f"the loop at {L.where} makes more than {MAXIT} passes")
        raise Unknown("iterations")

    def loop_state(self, L, fr):
        """The values that the end of the loop depends on."""
        if L.slice is None:
            seen, todo, lvs = set(), [g for _, g in L.exits], {}
            while todo:
                t = todo.pop()
                if t.id in seen:
                    continue
                seen.add(t.id)
                todo.extend(tm.subterms(t))
                if t.op == "lv" and t.a[0] == L.uid:
                    lvs[t.id] = t
                    todo.append(L.nexts[t.a[1]])
                elif t.op == "it" and t.a[0] == L.uid:
                    lvs[t.id] = t
                elif t.op in ("out", "exited"):
                    M = self.an.loops[t.a[0]]
                    todo += M.inits + M.nexts + [g for _, g in M.exits]
            L.slice = [lvs[k] for k in sorted(lvs)]
        try:
            return tuple(self.canon(self.ev(t, fr.env)) for t in L.slice)
        except (Unknown, EvalErr):
            return None

    def recursion(self, n, env):
        name, states = self.an.bounds[n]
        try:
            vals = [tuple(self.canon(self.ev(t, env)) for t in st) for st in states]
        except (Unknown, EvalErr, KeyError):
            return
        for i, v in enumerate(vals):
            if v in vals[:i]:
                raise Diverges(f"{name} calls itself again with the same state")

    def e_out(self, t, env):
        k, fr = self.run(t.a[0], env)
        if k != t.a[1]:
            raise Unknown("other loop exit")
        if self.an.fl(t.a[2]) <= set(fr.env):
            return self.ev(t.a[2], fr.env)
        e = dict(env)
        e.update(fr.env)
        return self.ev(t.a[2], e)

    def e_exited(self, t, env):
        return self.run(t.a[0], env)[0] == t.a[1]

    # sequences
    def seq(self, t, env):
        v = self.ev(t, env)
        return self.as_list(v)

    def as_list(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, ObjVal):
            c = self.content(v)
            if c is None:
                raise Unknown("iteration over object")
            return self.as_list(c)
        if isinstance(v, (tuple, frozenset)):
            if isinstance(v, tuple) and v[:1] == ("enum",):
                raise Unknown("iterate enum")
            return list(v)
        if isinstance(v, range):
            if len(v) > MAXSEQ:
                raise Unknown("long range")
            return list(v)
        if isinstance(v, dict):
            return [self.unhk(k) for k in v]
        if isinstance(v, (Seg, bytes)):
            return list(self.mat(v))
        if isinstance(v, str):
            return list(v)
        if v is None or isinstance(v, (int, float)):
            raise EvalErr("TypeError", f"iterate {type(v).__name__}")
        raise Unknown(f"sequence from {v!r}")

    def e_list(self, t, env):
        return self.evs(t.a, env)

    def e_tuple(self, t, env):
        return tuple(self.evs(t.a, env))

    def e_append(self, t, env):
        # left-deep chains: iterate
        xs = []
        while t.op == "append":
            xs.append(t.a[1])
            t = t.a[0]
        return self.seq(t, env) + [self.ev(x, env) for x in reversed(xs)]

    def e_concat(self, t, env):
        return self.seq(t.a[0], env) + self.seq(t.a[1], env)

    def e_insert(self, t, env):
        l = list(self.seq(t.a[0], env))
        l.insert(self.ev(t.a[1], env), self.ev(t.a[2], env))
        return l

    def e_popped(self, t, env):
        l = list(self.seq(t.a[0], env))
        try:
            del l[self.ev(t.a[1], env)]
        except IndexError:
            raise EvalErr("IndexError") from None
        return l

    def e_tolist(self, t, env):
        return self.seq(t.a[0], env)

    def e_range(self, t, env):
        a, b, c = (self.num(x) for x in self.evs(t.a, env))
        if c == 0:
            raise EvalErr("ValueError")
        return range(a, b, c)

    def e_enumerate(self, t, env):
        s = self.ev(t.a[1], env)
        return [(s + i, x) for i, x in enumerate(self.seq(t.a[0], env))]

    def e_zip(self, t, env):
        return [tuple(r) for r in zip(*[self.seq(x, env) for x in t.a])]

    def apply(self, lam, env, *args):
        if lam.op != "lam":
            raise Unknown("apply")
        e = dict(env)
        for b, v in zip(lam.a[0], args):
            self.serial += 1
            e[("b", b.a[0])] = (v, self.serial)
        return self.ev(lam.a[1], e)

    def e_bv(self, t, env):
        return env[("b", t.a[0])][0]

    def e_sorted(self, t, env):
        xs = list(self.seq(t.a[0], env))
        ks = [self.ordkey(self.apply(t.a[1], env, x) if t.a[1] is not NONE else x) for x in xs]
        rev = self.b(t.a[2], env)
        try:
            idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)
        except TypeError:
            raise EvalErr("TypeError", "order") from None
        return [xs[i] for i in idx]

    def e_reversed(self, t, env):
        return self.seq(t.a[0], env)[::-1]

    def e_elem(self, t, env):
        s, i = self.ev(t.a[0], env), self.ev(t.a[1], env)
        return self.index(s, i, t.id)

    def index(self, s, i, tid=None):
        if isinstance(s, ObjVal):
            c = self.content(s)
            if c is None:
                raise Unknown("index object")
            s = c
        if isinstance(s, dict):
            k = self.hk(i)
            if k not in s:
                raise EvalErr("KeyError")
            return s[k]
        if isinstance(s, Seg):
            if not -s.n <= i < s.n:
                raise EvalErr("IndexError")
            return self.mat(s.slice(i if i >= 0 else s.n + i, (i if i >= 0 else s.n + i) + 1))[0]
        if isinstance(s, RecVal) and getattr(s.cls, "flavour", None) == "namedtuple":
            return self.attr(s, list(s.cls.ann)[i])
        if isinstance(s, (list, tuple, range, bytes, str)):
            if not isinstance(i, int):
                raise EvalErr("TypeError")
            if isinstance(s, range) and i > len(s):
                raise EvalErr("IndexError")
            try:
                return s[i]
            except IndexError:
                raise EvalErr("IndexError") from None
        if isinstance(s, StructArr):
            return s.item(self, i)
        if s is None or isinstance(s, (int, float)):
            raise EvalErr("TypeError")
        if isinstance(s, Opaque):
            ty = s.ty
            raise Unknown("index opaque")
        raise Unknown(f"index {type(s).__name__}")

    def e_slice(self, t, env):
        s = self.ev(t.a[0], env)
        lo, hi, sp = (self.ev(x, env) for x in t.a[1:])
        if isinstance(s, ObjVal):
            s = self.content(s)
        for x in (lo, hi):
            if x is not None and not isinstance(x, int):
                raise EvalErr("TypeError")
        if isinstance(s, Seg):
            if sp not in (None, 1):
                raise Unknown("seg step")
            return s.slice(lo, hi)
        if isinstance(s, (bytes, str, list, tuple, range)):
            return s[lo:hi:sp]
        if isinstance(s, StructArr):
            return s.items(self)[lo:hi:sp]
        if s is None or isinstance(s, (int, float)):
            raise EvalErr("TypeError")
        raise Unknown("slice")

    def e_len(self, t, env):
        v = self.ev(t.a[0], env)
        return self.lenv(v)

    def seglen(self, v):
        if not self.an.diverge:
            return v.n
        # streams end
        return sum(len(s) if isinstance(s, bytes) else max(0, min(s[2], self.w.ssize(HVal(s[0])) - s[1])) for s in v.segs)

    def lenv(self, v):
        if isinstance(v, ObjVal):
            c = self.content(v)
            if c is None:
                raise Unknown("len object")
            return self.lenv(c)
        if isinstance(v, Seg):
            return self.seglen(v)
        if isinstance(v, StructArr):
            return v.n
        if v is None or isinstance(v, int):
            raise EvalErr("TypeError")
        if isinstance(v, (RecVal, Opaque)):
            raise Unknown("len")
        return len(v)

    # maps
    def hk(self, v):
        """Hashable key for a value."""
        if isinstance(v, Seg):
            return self.mat(v)
        if isinstance(v, bytearray):
            return bytes(v)
        if isinstance(v, tuple):
            return tuple(self.hk(x) for x in v)
        if isinstance(v, (list, dict)):
            raise EvalErr("TypeError", "unhashable")
        return v

    def unhk(self, k):
        return k

    def mapv(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, ObjVal):
            v = self.content(v)
        if isinstance(v, dict):
            return v
        if v is None:
            raise EvalErr("AttributeError", "None as dict")
        raise Unknown(f"dict from {v!r}")

    # explicit heap: a list of dictionaries, never changed in place
    def e_hempty(self, t, env):
        return HeapV()

    def e_hnew(self, t, env):
        return HeapV([*self.ev(t.a[0], env), dict(self.mapv(t.a[1], env))])

    def e_hlen(self, t, env):
        return len(self.ev(t.a[0], env))

    def e_haddr(self, t, env):
        return HAddr(self.ev(t.a[0], env))

    def e_hobj(self, t, env):
        return HObj(self.ev(t.a[0], env))

    def e_hid(self, t, env):
        return self.addr(self.ev(t.a[0], env))

    @staticmethod
    def addr(a):
        if a is None or isinstance(a, (int, str, bytes, Seg, list, dict)):
            raise EvalErr("TypeError", "not a dictionary")
        if not isinstance(a, HAddr):
            raise Unknown("not an address")
        return a

    def e_hget(self, t, env):
        return self.ev(t.a[0], env)[self.addr(self.ev(t.a[1], env)).n]

    def e_hput(self, t, env):
        h = HeapV(self.ev(t.a[0], env))
        h[self.addr(self.ev(t.a[1], env)).n] = dict(self.mapv(t.a[2], env))
        return h

    def e_hdeep(self, t, env):
        h = self.ev(t.a[0], env)

        def go(v, seen):
            if isinstance(v, HAddr):
                if v.n in seen:
                    raise Unknown("cyclic value")
                return {k: go(x, seen | {v.n}) for k, x in h[v.n].items()}
            if isinstance(v, dict):
                return {k: go(x, seen) for k, x in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(go(x, seen) for x in v)
            return v

        return go(self.ev(t.a[1], env), frozenset())

    def e_dict(self, t, env):
        return {self.hk(self.ev(k, env)): self.ev(v, env) for k, v in zip(t.a[::2], t.a[1::2])}

    def e_mset(self, t, env):
        d = dict(self.mapv(t.a[0], env))
        d[self.hk(self.ev(t.a[1], env))] = self.ev(t.a[2], env)
        return d

    def e_msetd(self, t, env):
        d = self.mapv(t.a[0], env)
        k = self.hk(self.ev(t.a[1], env))
        if k in d:
            return d
        d = dict(d)
        d[k] = self.ev(t.a[2], env)
        return d

    def e_mdel(self, t, env):
        d = dict(self.mapv(t.a[0], env))
        d.pop(self.hk(self.ev(t.a[1], env)), None)
        return d

    def e_mupdate(self, t, env):
        return {**self.mapv(t.a[0], env), **self.mapv(t.a[1], env)}

    def e_mkdict(self, t, env):
        out = {}
        for x in self.seq(t.a[0], env):
            k, v = self.as_list(x)
            out[self.hk(k)] = v
        return out

    def e_mget(self, t, env):
        o = self.ev(t.a[0], env)
        k = self.ev(t.a[1], env)
        if isinstance(o, dict) or isinstance(o, ObjVal):
            d = o if isinstance(o, dict) else self.content(o)
            if isinstance(d, dict):
                k = self.hk(k)
                if k not in d:
                    raise EvalErr("KeyError")
                return d[k]
            o = d
        return self.index(o, k)

    def e_mgetd(self, t, env):
        d = self.mapv(t.a[0], env)
        k = self.hk(self.ev(t.a[1], env))
        if k in d:
            return d[k]
        return self.ev(t.a[2], env)

    def e_items(self, t, env):
        return [(self.unhk(k), v) for k, v in self.mapv(t.a[0], env).items()]

    def e_keys(self, t, env):
        return [self.unhk(k) for k in self.mapv(t.a[0], env)]

    def e_values(self, t, env):
        return list(self.mapv(t.a[0], env).values())

    def e_path(self, t, env):
        raise Unknown("dangling path")

    # sets
    def e_set(self, t, env):
        return frozenset(self.hk(x) for x in self.evs(t.a, env))

    def e_sadd(self, t, env):
        return self.setv(t.a[0], env) | {self.hk(self.ev(t.a[1], env))}

    def setv(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, ObjVal):
            v = self.content(v)
        if isinstance(v, frozenset):
            return v
        raise Unknown("set")

    def e_sdel(self, t, env):
        return self.setv(t.a[0], env) - {self.hk(self.ev(t.a[1], env))}

    def e_mkset(self, t, env):
        return frozenset(self.hk(x) for x in self.seq(t.a[0], env))

    def e_sunion(self, t, env):
        return self.setv(t.a[0], env) | self.setv(t.a[1], env)

    # objects
    def e_ref(self, t, env):
        o = self.an.objs[t.a[0]]
        v = ObjVal(t.a[0])
        c = self.content(v)
        return v if c is None or o.kind in ("iter",) else c

    def content(self, v):
        o = self.an.objs[v.oid]
        f = self.an.CONTENT.get(o.kind)
        if f:
            c = self.heap.get((v.oid, f))
            if c is None:
                c = self.an.gst.cells.get((v.oid, f))
            if c is None:
                raise Unknown("no heap")
            r = self.ev(c, {})
            if o.kind == "list" and not isinstance(r, list):
                r = self.as_list(r)
            return r
        if o.kind == "iter":
            src, cur = self.heap.get((v.oid, "src")), self.heap.get((v.oid, "cur"))
            return self.seq(src, {})[self.ev(cur, {}):]
        return None

    def e_rec(self, t, env):
        cls, uid, fields = t.a
        return RecVal(cls, self.ev(uid, env), {k: v for k, v in fields}, env)

    def e_uid(self, t, env):
        return (t.a[0], *[self.ev(x, env) for x in t.a[1:]])

    def e_struct(self, t, env):
        ct, src, pos = t.a
        s = self.ev(src, env)
        p = self.ev(pos, env)
        if isinstance(s, Seg):
            pass
        return StructVal(ct, s, p)

    def e_attr(self, t, env):
        return self.attr(self.ev(t.a[0], env), t.a[1], t)

    def attr(self, o, name, t=None):
        if isinstance(o, RecVal):
            if name in o.fields:
                return self.ev(o.fields[name], o.env)
            if name == "size" and "_size" in o.fields:
                return self.ev(o.fields["_size"], o.env)
            m = o.cls.find(name) if hasattr(o.cls, "find") else None
            if m is not None and m.op == "const":
                return cv(m)
            return self.dyn_member(o, o.cls, name)
        if isinstance(o, ObjVal):
            c = self.heap.get((o.oid, name))
            if c is None:
                cls = self.an.objs[o.oid].cls
                m = cls.find(name) if hasattr(cls, "find") else None
                if m is not None and m.op == "const":
                    return cv(m)
                return self.dyn_member(o, cls, name)
            return self.ev(c, {})
        if isinstance(o, StructVal):
            src = o.src
            if isinstance(src, (HVal, RangeV, Opaque, RecVal, ObjVal)):
                s = self.inject(src)
            elif isinstance(src, (Seg, bytes)):
                s = self.inject(src, ("bytes",))
            else:
                raise Unknown("struct source")
            r = self.an.field(tm.mk("struct", o.ct, s, C(o.pos)), name)
            if r is None:
                raise EvalErr("AttributeError", name)
            tid = None
            if t is not None and self.w.aff is not None:
                # give the leaf the affinities of the attribute it is read for
                for tab in (self.w.aff.ints, self.w.aff.raws):
                    if t.id in tab:
                        tab.setdefault(r.id, set()).update(tab[t.id])
                if t.id in self.w.aff.rel:
                    self.w.aff.rel.setdefault(r.id, set()).update(self.w.aff.rel[t.id])
            return self.ev(r, {})
        if isinstance(o, Opaque):
            ty = None
            if o.ty and o.ty[0] == "cls":
                for c in o.ty[1].mro():
                    if name in c.ann:
                        ty = self.an.type_ast(c.ann[name], c.mod)
                        break
                else:
                    ty = self.an.init_ann(o.ty[1], name)
            if ty is None and t is not None:
                ty = self.an.types.get(t.id)
            return self.w.attr(o.key, name, ty, t.id if t is not None else None)
        if isinstance(o, RangeV) and name == "size":
            return o.size
        if isinstance(o, HVal):
            if name == "size":
                return self.w.ssize(o)
            return self.w.attr(o.key, name, self.an.types.get(t.id) if t is not None else None, t.id if t is not None else None)
        if o is None:
            raise EvalErr("AttributeError", f"None.{name}")
        if isinstance(o, (int, str, bytes, list, dict)):
            if isinstance(o, int) and name in ("value",):
                return o
            raise EvalErr("AttributeError", f"{type(o).__name__}.{name}")
        if isinstance(o, tuple) and o[:1] == ("enum",) and name == "name":
            return o[2]
        raise Unknown(f"attr {name} of {type(o).__name__}")

    def inject(self, v, ty=None):
        key = ("inj", repr(ckey(v)) if not isinstance(v, (Seg, bytes)) else ("b", id(v)))
        self._inj = getattr(self, "_inj", {})
        t = tm.mk("val", key, id(self))
        self._inj[t.id] = v
        if ty:
            self.an.types[t.id] = ty
        return t

    def e_val(self, t, env):
        return self._inj[t.id]

    def dyn_member(self, o, cls, name):
        """A property or method of an object only known by value: analyse it for this receiver."""
        v = cls.find(name) if hasattr(cls, "find") else None
        if v is not None and v.op == "static" and getattr(v.a[0], "deco", "") == "property":
            t = self.inject(o)
            self.an.types[t.id] = ("cls", cls)
            from .interp import State

            st = State()
            self.an.raises.append([])
            r = self.an.call_func(v.a[0], [t], {}, st)
            ex = self.an.raises.pop()
            for e in ex:
                if self.b(e.st.pc, {}):
                    raise Unknown("property raised")
            if st.dead:
                raise Unknown("property")
            sub = Evaluator(self.an, self.w, {**self.heap, **st.cells})
            sub._inj = self._inj
            return sub.ev(r, {})
        if v is None and hasattr(cls, "find") and self.an.lacks(cls, name):
            raise EvalErr("AttributeError", name)
        raise Unknown(f"member {name} of {getattr(cls, 'name', cls)}")

    def e_idx(self, t, env):
        return self.index(self.ev(t.a[0], env), t.a[1])

    def e_xempty(self, t, env):
        return None

    def e_xset(self, t, env):
        h = self.ev(t.a[0], env)
        o = self.ev(t.a[1], env)
        return (h, ckey(o), t.a[2], (t.a[3], env))

    def e_xget(self, t, env):
        h = self.ev(t.a[0], env)
        o = self.ev(t.a[1], env)
        k = ckey(o)
        while h is not None:
            if h[2] == t.a[2] and h[1] == k:
                return self.ev(h[3][0], h[3][1])
            h = h[0]
        return self.attr(o, t.a[2], t)

    # streams
    def e_pos0(self, t, env):
        h = as_handle(self.ev(t.a[0], env))
        k = ("pos0", h.key)
        if k not in self.w.vals:
            d = self.w.domains.get("@pos0")
            rng = self.w.keyed(k)
            self.w.vals[k] = d(rng) if d else rng.choice((0, 512, 1000, 4096, 77))
        return self.w.vals[k]

    def e_ssize(self, t, env):
        v = self.ev(t.a[0], env)
        if isinstance(v, ObjVal) or isinstance(v, RecVal):
            try:
                return self.attr(v, "size")
            except Unknown:
                pass
        return self.w.ssize(v)

    def e_rangeh(self, t, env):
        fh, off, size = self.evs(t.a, env)
        return RangeV(fh, self.num(off), size)

    def e_int(self, t, env):
        src, off, size, e, sg = t.a
        s = self.ev(src, env)
        o = self.num(self.ev(off, env))
        if isinstance(s, (Seg, bytes)):
            n = s.n if isinstance(s, Seg) else len(s)
            if o < 0 or o + size > n:
                raise EvalErr("EOFError")
            if isinstance(s, Seg):
                p = s.slice(o, o + size)
                if len(p.segs) == 1 and isinstance(p.segs[0], tuple):
                    h, q, _ = p.segs[0]
                    return self.w.read_int(HVal(h), q, size, e, sg, t.id)
                raw = self.mat(p)
            else:
                raw = s[o:o + size]
            return int.from_bytes(raw, "little" if e == "<" else "big", signed=sg)
        return self.w.read_int(as_handle(s), o, size, e, sg, t.id)

    def e_bytes(self, t, env):
        h, off, n = self.evs(t.a, env)
        off, n = self.num(off), self.num(n)
        if n <= 0:
            if n < 0:
                raise Unknown("negative read")
            return b""
        if off < 0:
            raise EvalErr("ValueError", "negative seek")
        if isinstance(h, (Seg, bytes)):
            return h.slice(off, off + n) if isinstance(h, Seg) else h[off:off + n]
        b, p = as_handle(h).base(off)
        s = Seg([(b.key, p, n)])
        if self.w.aff is not None and t.id in self.w.aff.raws and n <= 4096:
            self.w.read_bytes(b, p, n, t.id)
        return s

    def mat(self, v, tid=None):
        if isinstance(v, bytes):
            return v
        out = b""
        parts = []
        for s in v.segs:
            parts.append(s if isinstance(s, bytes) else self.w.read_bytes(HVal(s[0]), s[1], s[2], tid if len(v.segs) == 1 else None))
        return out.join(parts)

    def seg(self, v):
        if isinstance(v, Seg):
            return v
        if isinstance(v, (bytes, bytearray)):
            return Seg([bytes(v)])
        if isinstance(v, ObjVal):
            return self.seg(self.content(v))
        if isinstance(v, tuple) and v[:1] == ("enum",):
            r = self.enum_raw(v)
            if r is not None:
                return Seg([r])
        if v is None or isinstance(v, (int, str)):
            raise EvalErr("TypeError", "bytes expected")
        raise Unknown(f"bytes from {v!r}")

    def e_bcat(self, t, env):
        return Seg(self.seg(self.ev(t.a[0], env)).segs + self.seg(self.ev(t.a[1], env)).segs)

    def e_bjoin(self, t, env):
        out = []
        for x in self.seq(t.a[0], env):
            out += self.seg(x).segs
        return Seg(out)

    def e_brep(self, t, env):
        n = self.num(self.ev(t.a[1], env))
        s = self.seg(self.ev(t.a[0], env))
        if n * s.n > 1 << 22:
            raise Unknown("large repeat")
        return Seg(s.segs * max(n, 0))

    def e_bpatch(self, t, env):
        s = self.seg(self.ev(t.a[0], env))
        lo, hi = self.ev(t.a[1], env), self.ev(t.a[2], env)
        x = self.seg(self.ev(t.a[3], env))
        lo, hi, _ = slice(lo, hi).indices(s.n)
        return Seg(s.slice(0, lo).segs + x.segs + s.slice(max(hi, lo), s.n).segs)

    def e_sarr(self, t, env):
        ct, src, pos, n = t.a
        s, p, n = self.ev(src, env), self.ev(pos, env), self.num(self.ev(n, env))
        if n < 0:
            n = 0
        if n > MAXSEQ:
            raise Unknown("long array")
        sz = ct.fixed_size()
        out = []
        for i in range(n):
            if ct.kind in ("struct", "union"):
                out.append(StructVal(ct, s, p + i * sz))
            elif isinstance(s, (Seg, bytes)):
                raw = self.mat(s.slice(p + i * sz, p + (i + 1) * sz)) if isinstance(s, Seg) else s[p + i * sz:p + (i + 1) * sz]
                if len(raw) < sz:
                    raise EvalErr("EOFError")
                out.append(int.from_bytes(raw, "little" if ct.ns.endian == "<" else "big", signed=ct.signed))
            else:
                out.append(self.w.read_int(as_handle(s), p + i * sz, sz, ct.ns.endian, ct.signed, t.id))
        return out

    def e_zarr(self, t, env):
        ct, src, pos = t.a
        s, p = self.ev(src, env), self.ev(pos, env)
        sz = ct.fixed_size()
        out = []
        for i in range(24):
            off = p + i * sz
            if isinstance(s, (Seg, bytes)):
                sg = self.seg(s).slice(off, off + sz)
                if sg.n < sz:
                    raise EvalErr("EOFError")
                raw = self.mat(sg)
            else:
                b, q = as_handle(s).base(off)
                if all(self.w.mem.get((b.key, q + j)) is None for j in range(sz)) and self.w.keyed(("z", b.key, q)).random() < 0.45:
                    for j in range(sz):
                        self.w.mem[(b.key, q + j)] = 0
                if ct.kind == "struct":
                    # sample the element field by field so that small values are common
                    for fn, fct, dims in ct.fields:
                        if fn:
                            try:
                                self.attr(StructVal(ct, s, off), fn)
                            except (Unknown, EvalErr):
                                pass
                raw = self.w.read_bytes(as_handle(s), off, sz)
            if raw == b"\0" * sz:
                return out
            out.append(StructVal(ct, s, off) if ct.kind == "struct" else int.from_bytes(raw, "little" if ct.ns.endian == "<" else "big"))
        raise Unknown("unterminated array")

    def e_cstr(self, t, env):
        ct, src, pos = t.a
        s, p = self.ev(src, env), self.ev(pos, env)
        out = b""
        for i in range(256):
            c = self.mat(self.seg(s).slice(p + i, p + i + 1)) if isinstance(s, (Seg, bytes)) else self.w.read_bytes(as_handle(s), p + i, 1)
            if not c:
                raise EvalErr("EOFError")
            if c == b"\0":
                return out
            out += c
        raise Unknown("unterminated string")

    def e_fstr(self, t, env):
        out = []
        for x in t.a:
            v = self.ev(x, env)
            if not isinstance(v, str):
                raise EvalErr("TypeError")
            out.append(v)
        return "".join(out)

    # ---------------------------------------------------------------- pure applications
    def e_lam(self, t, env):
        raise Unknown("lambda value")

    def e_star(self, t, env):
        raise Unknown("star")

    def e_app(self, t, env):
        name = t.a[0]
        if name.startswith("m:"):
            return self.strm(name[2:], [self.ev(x, env) for x in t.a[1:]], t)
        f = getattr(self, "a_" + name.replace(".", "_").replace(":", "_"), None)
        if f is not None:
            return f(t, env)
        vs = [self.ev(x, env) for x in t.a[1:]]
        if name in PURE_METHODS:
            o = self.ev(t.a[1], env)
            if isinstance(o, ObjVal):
                o = self.content(o)
            if isinstance(o, dict):
                args = [self.ev(x, env) for x in t.a[2:]]
                m = name[7:]
                if m == "get":
                    return o.get(self.hk(args[0]), args[1] if len(args) > 1 else None)
                return [(k, v) if m == "items" else k if m == "keys" else v for k, v in o.items()]
        if name.startswith("method:") and vs and (vs[0] is None or isinstance(vs[0], (int, float)) and not hasattr(vs[0], name[7:])):
            raise EvalErr("AttributeError", name[7:])
        if name.startswith("method:") and vs and isinstance(vs[0], (bytes, str, Seg)) and hasattr(str, name[7:]) | hasattr(bytes, name[7:]):
            return self.strm(name[7:], vs, t)
        if name.startswith("fails:"):
            return self.w.keyed(("fails", name, tuple(self.canon(v) for v in vs))).random() < 0.4
        if name.startswith("call:"):
            return self.w.called(name[5:].rsplit(".", 1)[-1], ("app", name, tuple(self.canon(v) for v in vs)), self.an.types.get(t.id))
        if name.startswith("method:") or name.startswith("dissect.util") or name.startswith("vfa:"):
            return Opaque(("app", name, tuple(self.canon(v) for v in vs)), self.an.types.get(t.id))
        if name in ("posafter", "norun", "class", "type", "enumname", "float", "str", "sdiff", "id") or name.startswith("exc."):
            return Opaque(("app", name, tuple(self.canon(v) for v in vs)))
        raise Unknown(f"app {name}")

    def py(self, v):
        if isinstance(v, Seg):
            return self.mat(v)
        if isinstance(v, ObjVal):
            return self.py(self.content(v))
        if isinstance(v, list):
            return [self.py(x) for x in v]
        if isinstance(v, tuple) and v[:1] == ("enum",):
            r = self.enum_raw(v)
            if r is not None:
                return r
        if isinstance(v, (Opaque, RecVal, HVal, RangeV, StructVal)):
            raise Unknown("python value")
        return v

    def strm(self, name, vs, t):
        x, *args = [self.py(v) for v in vs]
        if x is None or isinstance(x, (int, list, dict)):
            raise EvalErr("AttributeError", name)
        try:
            r = getattr(x, name)(*args)
        except (TypeError, ValueError, AttributeError, LookupError) as e:
            raise EvalErr(type(e).__name__) from None
        return r

    def a_decode(self, t, env):
        v = self.py(self.ev(t.a[1], env))
        args = [self.ev(x, env) for x in t.a[2:]]
        try:
            return v.decode(*args)
        except UnicodeDecodeError:
            raise EvalErr("UnicodeDecodeError") from None
        except AttributeError:
            raise EvalErr("AttributeError") from None

    def a_encode(self, t, env):
        return self.py(self.ev(t.a[1], env)).encode(*[self.ev(x, env) for x in t.a[2:]])

    def a_cstrz(self, t, env):
        return self.py(self.ev(t.a[1], env)).split(b"\0")[0]

    def a_format(self, t, env):
        v = self.ev(t.a[1], env)
        try:
            v = self.py(v)
        except Unknown:
            return str(self.canon(v))
        conv = self.ev(t.a[3], env)
        if conv == 114:
            v = repr(v)
        return format(v, self.ev(t.a[2], env)) if not isinstance(v, (bytes, type(None), list, dict)) else str(v)

    def a_int(self, t, env):
        v = self.py(self.ev(t.a[1], env))
        b = self.ev(t.a[2], env)
        try:
            return int(v, b) if isinstance(v, (str, bytes)) else int(v)
        except ValueError:
            raise EvalErr("ValueError") from None
        except TypeError:
            raise EvalErr("TypeError") from None

    def a_isint(self, t, env):
        try:
            self.a_int(t, env)
            return True
        except EvalErr as e:
            if e.name == "ValueError":
                return False
            raise

    def a_isliteral(self, t, env):
        try:
            self.a_literal_eval(t, env)
            return True
        except EvalErr:
            return False

    def a_literal_eval(self, t, env):
        v = self.py(self.ev(t.a[1], env))
        try:
            r = ast.literal_eval(v)
        except (ValueError, SyntaxError, TypeError, MemoryError) as e:
            raise EvalErr(type(e).__name__) from None
        return r

    def a_str(self, t, env):
        v = self.ev(t.a[1], env)
        try:
            return str(self.py(v))
        except Unknown:
            return Opaque(("app", "str", self.canon(v)))

    def a_hex(self, t, env):
        return hex(self.num(self.ev(t.a[1], env)))

    def a_abs(self, t, env):
        return abs(self.num(self.ev(t.a[1], env)))

    def solid(self, v):
        """A canonical value with its byte strings read out; None when there is nothing literal to compare them with."""
        lit = [False]

        def go(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "bytes" and isinstance(x[1], tuple):
                out = b""
                for s in x[1]:
                    if isinstance(s, bytes):
                        lit[0] = True
                        out += s
                    elif isinstance(s, tuple) and len(s) == 3 and isinstance(s[1], int):
                        out += self.w.read_bytes(HVal(s[0]), s[1], s[2])
                    else:
                        return x
                return ("bytes", out)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, list):
                return [go(y) for y in x]
            return x

        return go(v), lit[0]

    def a_bytes(self, t, env):
        v = self.ev(t.a[1], env)
        if isinstance(v, Seg):
            return v
        v = self.py(v)
        try:
            return bytes(v)
        except (TypeError, ValueError) as e:
            raise EvalErr(type(e).__name__) from None

    def a_byte(self, t, env):
        return bytes([self.ev(t.a[1], env)])

    def a_frombytes(self, t, env):
        v = self.seg(self.ev(t.a[1], env))
        e, sg = self.ev(t.a[2], env), self.ev(t.a[3], env)
        if v.n > 16:
            return int.from_bytes(self.mat(v), "little" if e == "<" else "big", signed=sg)
        if len(v.segs) == 1 and isinstance(v.segs[0], tuple):
            h, q, n = v.segs[0]
            return self.w.read_int(HVal(h), q, n, e, sg, t.id)
        return int.from_bytes(self.mat(v), "little" if e == "<" else "big", signed=sg)

    def a_to_bytes(self, t, env):
        v, n, bo, sg = (self.ev(x, env) for x in t.a[1:])
        try:
            return v.to_bytes(n, bo, signed=sg)
        except (OverflowError, AttributeError) as e:
            raise EvalErr(type(e).__name__) from None

    def a_bit_length(self, t, env):
        return self.num(self.ev(t.a[1], env)).bit_length()

    def a_UUID(self, t, env):
        k, v = self.ev(t.a[1], env), self.ev(t.a[2], env)
        if isinstance(v, Seg):
            v = self.mat(v, t.a[2].id)
        else:
            v = self.py(v)
        if isinstance(v, list):
            v = bytes(v)
        try:
            return _uuid.UUID(**{k: v})
        except (ValueError, TypeError, AttributeError) as e:
            raise EvalErr("ValueError") from None

    def a_repeat(self, t, env):
        s, n = self.ev(t.a[1], env), self.num(self.ev(t.a[2], env))
        if isinstance(s, int):
            s, n = n, s
        s = self.as_list(s) if not isinstance(s, (str, bytes)) else s
        if len(s) * n > MAXSEQ:
            raise Unknown("long repeat")
        return s * n

    def _arith(self, t, env, f):
        a, b = self.ev(t.a[1], env), self.ev(t.a[2], env)
        return f(a, b)

    def a_arithAdd(self, t, env):
        a, b = self.ev(t.a[1], env), self.ev(t.a[2], env)
        if isinstance(a, (Seg, bytes)) and isinstance(b, (Seg, bytes)):
            return Seg(self.seg(a).segs + self.seg(b).segs)
        if isinstance(a, list) and isinstance(b, list):
            return a + b
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        return self.num(a) + self.num(b)

    def a_arithSub(self, t, env):
        return self.num(self.ev(t.a[1], env)) - self.num(self.ev(t.a[2], env))

    def a_arithMult(self, t, env):
        return self.num(self.ev(t.a[1], env)) * self.num(self.ev(t.a[2], env))

    def a_arithDiv(self, t, env):
        return self.num(self.ev(t.a[1], env)) / self.num(self.ev(t.a[2], env))

    def a_arithFloorDiv(self, t, env):
        return self.num(self.ev(t.a[1], env)) // self.num(self.ev(t.a[2], env))

    def a_arithMod(self, t, env):
        return self.num(self.ev(t.a[1], env)) % self.num(self.ev(t.a[2], env))

    def a_cmp_lt(self, t, env):
        return self._cmp(t, env, lambda a, b: a < b)

    def a_cmp_le(self, t, env):
        return self._cmp(t, env, lambda a, b: a <= b)

    def _cmp(self, t, env, f):
        a, b = self.ordkey(self.ev(t.a[1], env)), self.ordkey(self.ev(t.a[2], env))
        try:
            return f(a, b)
        except TypeError:
            raise EvalErr("TypeError") from None

    def a_bisect_right(self, t, env):
        return self._bisect(t, env, bisect.bisect_right)

    def a_bisect_left(self, t, env):
        return self._bisect(t, env, bisect.bisect_left)

    def _bisect(self, t, env, f):
        xs = self.seq(t.a[1], env)
        if t.a[3] is not NONE:
            xs = [self.apply(t.a[3], env, x) for x in xs]
        return f([self.ordkey(x) for x in xs], self.ordkey(self.ev(t.a[2], env)))

    def a_setitem(self, t, env):
        o, i, v = (self.ev(x, env) for x in t.a[1:])
        if isinstance(o, dict):
            d = dict(o)
            d[self.hk(i)] = v
            return d
        if isinstance(o, list):
            l = list(o)
            try:
                l[i] = v
            except IndexError:
                raise EvalErr("IndexError") from None
            return l
        raise Unknown("setitem")

    def a_delitem(self, t, env):
        o, i = (self.ev(x, env) for x in t.a[1:])
        if isinstance(o, list):
            l = list(o)
            del l[i]
            return l
        raise Unknown("delitem")

    def a_seq_index(self, t, env):
        xs, v = self.seq(t.a[1], env), self.ev(t.a[2], env)
        for i, x in enumerate(xs):
            if self.equal(x, v):
                return i
        raise EvalErr("ValueError")

    def a_seq_count(self, t, env):
        xs, v = self.seq(t.a[1], env), self.ev(t.a[2], env)
        return sum(self.equal(x, v) for x in xs)

    def a_sumlist(self, t, env):
        out = []
        for x in self.seq(t.a[1], env):
            out += self.as_list(x)
        return out

    def a_re(self, t, env):
        return Opaque(("re", self.canon(self.ev(t.a[1], env))))

    def a_re_sub(self, t, env):
        p, r, s, f = (self.ev(x, env) for x in t.a[1:])
        return re.sub(p, r, self.py(s), flags=f if isinstance(f, int) else 0)

    def a_re_split(self, t, env):
        p, s = (self.ev(x, env) for x in t.a[1:3])
        if not isinstance(p, (str, bytes)):
            raise Unknown("pattern")
        return re.split(p, self.py(s))

    def a_runs(self, t, env):
        """Normal form of a byte map: sorted, adjacent pieces of the same source joined, nested maps resolved."""
        return self.norm_runs(self.map_rows([self.as_list(x) for x in self.seq(t.a[1], env)], 0, None))

    def a_runlist(self, t, env):
        rl = [self.as_list(x) for x in self.seq(t.a[1], env)]
        size, bs, fh = (self.ev(x, env) for x in t.a[2:5])
        return self.norm_runs(self.map_rows(self.runlist_rows(rl, size, bs, fh), 0, None))

    def runlist_rows(self, rl, size, bs, fh):
        rows, at = [], 0
        for start, n in rl:
            ln = min(self.num(n) * bs, size - at)
            if start is None:
                raise Unknown("sparse run")
            rows.append((at, ln, fh, start * bs))
            at += self.num(n) * bs
        return rows

    def map_rows(self, rows, lo, n, depth=0):
        """Pieces of a byte map between lo and lo + n, relative to lo."""
        out = []
        for off, size, fh, fo in rows:
            a, b = max(self.num(off), lo), self.num(off) + self.num(size)
            if n is not None:
                b = min(b, lo + n)
            if b > a:
                out += [(x + a - lo, m, f, g) for x, m, f, g in self.resolve_run(fh, self.num(fo) + a - off, b - a, depth)]
        return out

    def resolve_run(self, fh, off, n, depth):
        if depth > 6:
            raise Unknown("deep map")
        if isinstance(fh, RangeV) and isinstance(fh.size, int):
            return self.resolve_run(fh.fh, fh.off + off, min(n, fh.size - off), depth + 1) if n > 0 else []
        rows = None
        if isinstance(fh, RecVal) and "@runs" in fh.fields or isinstance(fh, ObjVal) and (fh.oid, "@runs") in self.heap:
            rows = [self.as_list(x) for x in self.as_list(self.attr(fh, "@runs"))]
        elif isinstance(fh, ObjVal) and (fh.oid, "runlist") in self.heap and (fh.oid, "block_size") in self.heap:
            rl, size, bs, base = (self.attr(fh, k) for k in ("runlist", "size", "block_size", "fh"))
            rows = self.runlist_rows([self.as_list(x) for x in self.as_list(rl)], size, bs, base)
        if rows is not None:
            return self.map_rows(rows, off, n, depth + 1)
        return [(0, n, fh, off)] if n > 0 else []

    def norm_runs(self, rows):
        rows = sorted(((o, n, self.canon(f), g) for o, n, f, g in rows), key=lambda r: r[0])
        out = []
        for r in rows:
            if out and out[-1][0] + out[-1][1] == r[0] and out[-1][2] == r[2] and out[-1][3] + out[-1][1] == r[3]:
                p = out.pop()
                r = (p[0], p[1] + r[1], p[2], p[3])
            out.append(r)
        return [tuple(r) for r in out]

    # ---------------------------------------------------------------- canonical observable form
    def canon(self, v, depth=0):
        if depth > 12:
            raise Unknown("deep value")
        if isinstance(v, Seg):
            return ("bytes", tuple(v.segs)) if any(isinstance(s, tuple) for s in v.segs) else ("bytes", (b"".join(v.segs),) if v.segs else ())
        if isinstance(v, (bytes, bytearray)):
            return ("bytes", (bytes(v),) if v else ())
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, str, float, type(None), _uuid.UUID)):
            return v
        if isinstance(v, tuple):
            return tuple(self.canon(x, depth + 1) for x in v)
        if isinstance(v, (list, range)):
            return tuple(self.canon(x, depth + 1) for x in v)
        if isinstance(v, dict):
            return ("dict", tuple(sorted(((self.canon(k, depth + 1), self.canon(x, depth + 1)) for k, x in v.items()), key=repr)))
        if isinstance(v, frozenset):
            return ("set", tuple(sorted((self.canon(x, depth + 1) for x in v), key=repr)))
        if isinstance(v, RangeV):
            fh, off = v.fh, v.off
            while isinstance(fh, RangeV) and isinstance(v.size, int) and isinstance(fh.size, int) and 0 <= off and off + v.size <= fh.size:
                # a window inside a window
                fh, off = fh.fh, fh.off + off
            return ("range", self.canon(fh, depth + 1), off, self.canon(v.size))
        if isinstance(v, (HVal, Opaque, StructVal)):
            return ("key", v.key)
        if isinstance(v, ObjVal):
            c = self.content(v)
            if c is not None:
                return self.canon(c, depth + 1)
            return ("key", v.key)
        if isinstance(v, RecVal):
            return ("key", v.key)
        return v


class StructArr:  # kept for type checks
    n = 0
