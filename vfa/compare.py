"""Deciding whether two value graphs denote the same outcome.

1. congruence: partition refinement over the value graph (loops compared as recurrences, AWZ style);
2. random interpretation: both graphs are valued at the leaves of many worlds, recurrences followed for a
   bounded number of steps; a differing valuation is a proof of difference.
"""
from __future__ import annotations

import ast
import hashlib
import os
import time

from . import terms as tm
from .cdef import CType
from .evalr import Diverges, EvalErr, Evaluator, ObjVal, Unknown, World
from .interp import AnalysisError, Analyzer, ClassV, Exit, FuncV, State
from .terms import NONE, T, UNDEF, cv, isc, mk


class Outcome:
    def __init__(self, name, raises, ret, st):
        self.name, self.raises, self.ret, self.st = name, raises, ret, st
        self.labels = None

    def roots(self):
        out = [pc for pc, _ in self.raises]
        if self.ret is not None:
            out.append(self.ret)
            out.append(self.st.pc)
        return out


def entry(an: Analyzer, mod, fname: str) -> Outcome:
    """Analyse one harness function on symbolic arguments."""
    v = mod.env.get(fname)
    if v is None or v.op != "static" or not isinstance(v.a[0], FuncV):
        raise AnalysisError(f"harness function {fname} missing")
    f = v.a[0]
    args = []
    for p in f.node.args.args:
        t = mk("sym", p.arg)
        ty = an.type_ast(p.annotation, mod) if p.annotation is not None else None
        if ty is not None:
            an.types[t.id] = ty
        args.append(t)
    st = State()
    an.raises.append([])
    r = an.call_func(f, args, {}, st)
    ex = an.raises.pop()
    raises = [(e.st.pc, e.val.a[0]) for e in ex]
    if st.dead:
        return Outcome(fname, raises, None, st)
    out = Outcome(fname, raises, r, st)
    out.labels = labels_of(an, r, st)
    return out


def labels_of(an, r, st):
    """The labelled results of a harness function that returns a dict display."""
    if r.op == "ite":
        a, b = labels_of(an, r.a[1], st), labels_of(an, r.a[2], st)
        if a is None or b is None:
            return a if r.a[2] is UNDEF else b if r.a[1] is UNDEF else None
        return {k: tm.ite(r.a[0], a[k], b[k]) for k in a} if set(a) == set(b) else None
    if r.op == "haddr" or r.op == "ref" and an.objs[r.a[0]].kind == "dict":
        m = an.val(r, st)
        while m.op == "ite" and UNDEF in m.a[1:]:
            m = m.a[1] if m.a[2] is UNDEF else m.a[2]
        if m.op == "dict" and all(isc(k) and isinstance(cv(k), str) for k in m.a[::2]):
            return {cv(k): v for k, v in zip(m.a[::2], m.a[1::2])}
    return None


# ------------------------------------------------------------------ reachability
def reach(an, roots, st):
    seen: dict[int, T] = {}
    todo = list(roots)
    loops = set()
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        todo.extend(tm.subterms(t))
        if t.op in ("out", "exited", "lv", "it"):
            if t.a[0] in an.loops and t.a[0] not in loops:
                loops.add(t.a[0])
                L = an.loops[t.a[0]]
                todo.extend(L.inits)
                todo.extend(L.nexts)
                todo.extend(g for _, g in L.exits)
        elif t.op == "ref" and st is not None:
            oid = t.a[0]
            for k, v in st.cells.items():
                if k[0] == oid and isinstance(v, T):
                    todo.append(v)
            for k, v in an.gst.cells.items():
                if k[0] == oid and isinstance(v, T):
                    todo.append(v)
    return seen, loops


# ------------------------------------------------------------------ congruence
class Congruence:
    """Coarsest stable partition of the terms of several graphs."""

    def __init__(self, an, outs):
        self.an = an
        self.cells = {}
        for o in outs:
            for k, v in o.st.cells.items():
                if isinstance(k[0], int):
                    self.cells.setdefault(k, v)
        roots = [r for o in outs for r in o.roots()]
        self.loops = set()
        for o in outs:
            self.loops |= reach(an, o.roots(), o.st)[1]
        self.lv: dict = {}
        self.ex: dict = {}
        for u in self.loops:
            for i in range(len(an.loops[u].keys)):
                self.lv[(u, i)] = 1
            self.ex[u] = 2
        prev = -1
        self.rounds = 0
        while True:
            self.rounds += 1
            self.memo: dict = {}
            new, nex = {}, {}
            for u in self.loops:
                L = an.loops[u]
                for i in range(len(L.keys)):
                    new[(u, i)] = hash((11, self.h(L.inits[i]), self.h(L.nexts[i])))
                nex[u] = hash((12, tuple((k, self.h(g)) for k, g in L.exits)))
            self.lv, self.ex = new, nex
            n = len(set(new.values())) + len(set(nex.values()))
            if n == prev or self.rounds > 40:
                break
            prev = n
        self.memo = {}

    def h(self, t: T):
        m = self.memo
        if t.id in m:
            return m[t.id]
        m[t.id] = 0
        op = t.op
        if op == "lv":
            r = hash((13, self.lv.get(t.a, t.a)))
        elif op == "it":
            r = hash((14, self.ex.get(t.a[0], t.a[0])))
        elif op in ("out", "exited"):
            u, k = t.a[0], t.a[1]
            kd, g = self.an.loops[u].exits[k]
            r = hash((15, op, self.ex.get(u), kd, self.h(g), self.h(t.a[2]) if op == "out" else 0))
        elif op == "ref":
            o = self.an.objs[t.a[0]]
            f = self.an.CONTENT.get(o.kind)
            if f:
                c = self.cells.get((t.a[0], f))
                if c is None:
                    c = self.an.gst.cells.get((t.a[0], f))
                r = hash((16, o.kind, self.h(c) if c is not None else t.a[0]))
            else:
                r = hash((17, t.a[0]))
        elif op == "rec":
            r = hash((18, id(t.a[0]), tuple((k, self.h(v)) for k, v in t.a[2])))
        elif op == "lam":
            env = {b.id: i for i, b in enumerate(t.a[0])}
            sub = Congruence.__new__(Congruence)
            sub.__dict__.update(self.__dict__)
            sub.memo = {i: hash((19, j)) for i, j in env.items()}
            r = hash((20, sub.h(t.a[1])))
        else:
            r = hash((op, self.arg(t.a, op in ("and", "or", "eq", "min", "max", "band", "bor", "bxor"))))
        m[t.id] = r
        return r

    def arg(self, a, comm=False):
        xs = []
        for v in a:
            if isinstance(v, T):
                xs.append(self.h(v))
            elif isinstance(v, tuple):
                xs.append(hash(self.arg(v, bool(v) and isinstance(v[0], tuple))))
            elif isinstance(v, tm.K):
                xs.append(hash(repr((type(v.v).__name__, v.v))))
            elif isinstance(v, CType):
                xs.append(hash(("ct", self.ckey(v))))
            elif hasattr(v, "name") and not isinstance(v, str):
                xs.append(hash(("nm", v.name)))
            else:
                xs.append(hash(v))
        if comm:
            xs.sort()
        return tuple(xs)

    def ckey(self, ct):
        return (ct.kind, ct.name, ct.size, ct.signed, ct.ns.endian)


# ------------------------------------------------------------------ affinities
class Affinity:
    """Values the two graphs compare their leaves with: candidates when worlds are drawn."""

    CAP = 48

    def __init__(self, an, terms):
        self.an = an
        self.any: dict[int, set] = {}
        self.elems: dict[int, set] = {}
        self.rel: dict[int, set] = {}
        self.names: dict[str, set] = {}
        self.byname: dict[str, list] = {}
        self.todo = []
        for t in terms.values():
            if t.op == "rec":
                for k, v in t.a[2]:
                    self.byname.setdefault(k, []).append(v)
            elif t.op == "xset":
                self.byname.setdefault(t.a[2], []).append(t.a[3])
        for t in terms.values():
            self.seed(t)
        while self.todo:
            t, v, how = self.todo.pop()
            self.flow(t, v, how)
        for t in terms.values():
            if t.op == "sarr" and t.id in self.elems:
                self.any.setdefault(t.id, set()).update(self.elems[t.id])
        self.ints = {k: {x for x in v if isinstance(x, int)} for k, v in self.any.items()}
        self.ints = {k: v for k, v in self.ints.items() if v}
        self.raws = {k: {x for x in v if isinstance(x, bytes)} for k, v in self.any.items()}
        self.raws = {k: v for k, v in self.raws.items() if v}

    def add(self, t, v, how="v"):
        tab = self.any if how == "v" else self.elems
        s = tab.setdefault(t.id, set())
        if v in s or len(s) >= self.CAP:
            return
        try:
            s.add(v)
        except TypeError:
            return
        self.todo.append((t, v, how))

    def relate(self, a, b):
        a, b = self.leafs(a), self.leafs(b)
        for x in a:
            for y in b:
                if x is not y:
                    self.rel.setdefault(x.id, set()).add(y.id)
                    self.rel.setdefault(y.id, set()).add(x.id)

    def leafs(self, t, depth=0, seen=None):
        """Leaf terms a value may come from."""
        if depth > 6:
            return []
        op = t.op
        if op in ("int", "sym", "attr", "xget", "bytes", "app", "elem", "mget", "mgetd"):
            out = [t]
            if op in ("attr", "xget"):
                nm = t.a[1] if op == "attr" else t.a[2]
                for v in self.byname.get(nm, ())[:4]:
                    if v is not t:
                        out += self.leafs(v, depth + 3)
            if op == "app" and t.a[0] in ("UUID", "decode", "m:rstrip", "m:strip"):
                for x in t.a[1:]:
                    if x.op in ("bytes", "attr", "slice"):
                        out += self.leafs(x, depth + 1)
            return out
        if op == "ite":
            return self.leafs(t.a[1], depth + 1) + self.leafs(t.a[2], depth + 1)
        if op == "out":
            return self.leafs(t.a[2], depth + 1)
        if op == "lv":
            L = self.an.loops[t.a[0]]
            return [t] + self.leafs(L.inits[t.a[1]], depth + 3) + (self.leafs(L.nexts[t.a[1]], depth + 3) if depth < 3 else [])
        if op == "poly" and len(t.a[1]) == 1 and len(t.a[1][0][0]) == 1:
            return self.leafs(t.a[1][0][0][0], depth + 1)
        return []

    def seed(self, t):
        op = t.op
        if op in ("eq0", "gt0"):
            x = t.a[0]
            if x.op == "poly":
                c, ms = x.a
                if len(ms) == 1:
                    (k, v), = ms
                    if len(k) == 1:
                        if op == "eq0":
                            if c % v == 0:
                                self.add(k[0], -c // v)
                        else:
                            b = -c // v
                            for d in (0, 1, -1):
                                self.add(k[0], b + d)
                else:
                    atoms = [k[0] for k, v in ms if len(k) == 1]
                    if len(atoms) <= 4:
                        for i, a in enumerate(atoms):
                            for b in atoms[i + 1:]:
                                self.relate(a, b)
            else:
                self.add(x, 0)
                if op == "gt0":
                    self.add(x, 1)
                else:
                    self.add(x, 1)
        elif op == "eq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if isc(y) and cv(y) is not None:
                    self.add(x, cv(y))
            if not isc(a) and not isc(b):
                self.relate(a, b)
        elif op in ("mget", "mgetd", "in"):
            m, k = (t.a[0], t.a[1]) if op != "in" else (t.a[1], t.a[0])
            if m.op == "ref":
                m = self.an.gst.cells.get((m.a[0], "map"), m)
            if op == "in" and isc(k) and isinstance(cv(k), bytes):
                self.add(m, cv(k))
                self.add(m, b" " + cv(k))
            if m.op == "dict":
                ks = list(m.a[::2])
                for x in ks if len(ks) <= 16 else ks[::len(ks) // 5]:
                    if isc(x):
                        self.add(k, cv(x))
            elif m.op == "set":
                for x in m.a:
                    if isc(x):
                        self.add(k, cv(x))
            elif m.op == "const" and isinstance(cv(m), (frozenset, tuple)):
                for x in cv(m):
                    self.add(k, x)
            else:
                ks = self.keyterms(m)
                for x in ks:
                    self.relate(k, x)
        elif op == "app" and t.a[0] in ("m:startswith", "m:endswith") and isc(t.a[2]):
            v = cv(t.a[2])
            for y in v if isinstance(v, tuple) else (v,):
                self.add(t.a[1], y)
        elif op == "isnone":
            pass

    def keyterms(self, m, depth=0):
        if depth > 6:
            return []
        if m.op in ("mset", "msetd"):
            return [m.a[1]] + self.keyterms(m.a[0], depth + 1)
        if m.op in ("sadd", "append"):
            return [m.a[1]] + self.keyterms(m.a[0], depth + 1)
        if m.op == "lv":
            L = self.an.loops[m.a[0]]
            return self.keyterms(L.nexts[m.a[1]], depth + 2)
        if m.op == "out":
            return self.keyterms(m.a[2], depth + 1)
        if m.op == "ite":
            return self.keyterms(m.a[1], depth + 1) + self.keyterms(m.a[2], depth + 1)
        if m.op in ("keys", "sorted"):
            return self.keyterms(m.a[0], depth + 1)
        return []

    def flow(self, t, v, how):
        op, an = t.op, self.an
        if op == "lv":
            L = an.loops.get(t.a[0])
            if L is not None:
                self.add(L.inits[t.a[1]], v, how)
                self.add(L.nexts[t.a[1]], v, how)
            return
        if op == "out":
            self.add(t.a[2], v, how)
            return
        if op == "ite":
            self.add(t.a[1], v, how)
            self.add(t.a[2], v, how)
            return
        if how == "e":
            if op == "append":
                self.add(t.a[0], v, "e")
                self.add(t.a[1], v)
            elif op in ("list", "tuple"):
                for x in t.a:
                    self.add(x, v)
            elif op in ("sorted", "reversed", "slice", "tolist", "popped", "values"):
                self.add(t.a[0], v, "e")
            elif op == "concat":
                self.add(t.a[0], v, "e")
                self.add(t.a[1], v, "e")
            elif op == "mset":
                self.add(t.a[2], v)
                self.add(t.a[0], v, "e")
            elif op == "ref":
                pass
            return
        if op == "elem":
            self.add(t.a[0], v, "e")
        elif op in ("mget", "mgetd"):
            self.add(t.a[0], v, "e")
        elif op in ("attr", "xget"):
            nm = t.a[1] if op == "attr" else t.a[2]
            self.names.setdefault(nm, set()).add(v)
            for x in self.byname.get(nm, ()):
                self.add(x, v)
        elif op == "poly" and isinstance(v, int):
            c, ms = t.a
            if len(ms) == 1 and len(ms[0][0]) == 1:
                k = ms[0][1]
                if (v - c) % k == 0 and not (c and ms[0][0][0].op == "lv"):
                    self.add(ms[0][0][0], (v - c) // k)
        elif op == "band" and isinstance(v, int):
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if isc(y):
                    self.add(x, v & cv(y))
                    self.add(x, cv(y))
                    self.add(x, v)
        elif op == "bor" and isinstance(v, int):
            for x in t.a:
                self.add(x, v)
        elif op == "shr" and isinstance(v, int) and isc(t.a[1]):
            self.add(t.a[0], v << cv(t.a[1]))
        elif op == "shl" and isinstance(v, int) and isc(t.a[1]):
            self.add(t.a[0], v >> cv(t.a[1]))
        elif op == "fdiv" and isinstance(v, int) and isc(t.a[1]):
            self.add(t.a[0], v * cv(t.a[1]))
        elif op == "slice" and isinstance(v, (bytes, str)):
            if isc(t.a[1]) and cv(t.a[1]) in (0, None):
                self.add(t.a[0], v)
        elif op == "app":
            n = t.a[0]
            if n.startswith("m:") and n[2:] in ("strip", "rstrip", "lstrip", "lower", "upper", "casefold") and isinstance(v, (bytes, str)):
                self.add(t.a[1], v)
            elif n == "decode" and isinstance(v, str):
                enc = cv(t.a[2]) if len(t.a) > 2 and isc(t.a[2]) else "utf-8"
                try:
                    self.add(t.a[1], v.encode(enc))
                except (UnicodeError, LookupError, TypeError):
                    pass
            elif n == "UUID":
                k = cv(t.a[1])
                import uuid

                if isinstance(v, uuid.UUID) and k in ("bytes", "bytes_le"):
                    self.add(t.a[2], getattr(v, k))
            elif n in ("cstrz",) and isinstance(v, bytes):
                self.add(t.a[1], v)
            elif n == "frombytes":
                pass
            elif n == "to_bytes" and isinstance(v, bytes):
                self.add(t.a[1], int.from_bytes(v, cv(t.a[3]) if isc(t.a[3]) else "little"))
        elif op == "bjoin" or op == "bcat":
            pass


# ------------------------------------------------------------------ comparison
class Result:
    def __init__(self):
        self.status = "held"     # held / differs / undecided
        self.labels: dict = {}
        self.witness = None
        self.stats: dict = {}


def exc_name(e):
    return e.name if hasattr(e, "name") else str(e)


# errors that Python raises itself, so an explicit raise is no different from a failing operation
RUNTIME = {"IndexError", "KeyError", "LookupError", "AttributeError", "TypeError", "ZeroDivisionError", "UnicodeDecodeError", "EOFError",
           "OverflowError", "error"}


def is_err(v):
    return isinstance(v, tuple) and v[:1] == ("error",)


class Compare:
    def __init__(self, an, code: Outcome, refs: list[Outcome], domains, samples, seed, excmap=None, budget=60.0, opts=None):
        self.an, self.code, self.refs = an, code, refs
        self.domains, self.samples, self.seed = domains, samples, seed
        self.excmap = excmap or {}
        self.budget = budget
        self.opts = opts or {}

    def outcome(self, o: Outcome, ev: Evaluator):
        """-> ('raise', name) | ('ok', None)"""
        for pc, e in o.raises:
            if ev.b(pc, {}):
                n = exc_name(e)
                if isinstance(n, str) and n.startswith("<bound"):
                    if n != "<bound>":
                        ev.recursion(int(n[7:-1]), {})
                    raise Unknown("recursion bound")
                n = self.excmap.get(n, n)
                return ("error" if n in RUNTIME else "raise", n)
        if o.ret is None:
            raise Unknown("no exit")
        return ("ok", None)

    def value(self, o, ev, label):
        t = o.ret if label is None else o.labels[label]
        try:
            return ev.canon(ev.ev(t, {}))
        except EvalErr as e:
            return ("error", e.name)

    def run(self):
        an, code, ref = self.an, self.code, self.refs[0]
        res = Result()
        labels = [None]
        if code.labels is not None and ref.labels is not None:
            if set(code.labels) != set(ref.labels):
                raise AnalysisError(f"labels differ: {set(code.labels) ^ set(ref.labels)}")
            labels = list(code.labels)
        # 1. congruence
        t0 = time.time()
        cong = Congruence(an, [code, *self.refs])
        eqlab = set()
        for l in labels:
            a = code.ret if l is None else (code.labels or {}).get(l)
            b = ref.ret if l is None else (ref.labels or {}).get(l)
            if a is not None and b is not None and cong.h(a) == cong.h(b):
                eqlab.add(l)
        hr = lambda o: sorted((cong.h(pc), exc_name(e)) for pc, e in o.raises)
        same_exits = hr(code) == hr(ref)
        res.stats["congruent_labels"] = len(eqlab)
        res.stats["congruent_exits"] = same_exits
        res.stats["congruence_rounds"] = cong.rounds
        # 2. random interpretation
        terms, _ = reach(an, code.roots(), code.st)
        for r in self.refs:
            terms.update(reach(an, r.roots(), r.st)[0])
        aff = Affinity(an, terms)
        cterms, cloops = reach(an, code.roots(), code.st)
        conds = {}
        for t in cterms.values():
            if t.op == "ite":
                conds.setdefault(t.a[0].id, set())
        for u in cloops:
            for _, g in an.loops[u].exits:
                conds.setdefault(g.id, set())
        for pc, _ in code.raises:
            conds.setdefault(pc.id, set())
        alive = [True] * len(self.refs)       # references not yet refuted
        first = [None] * len(self.refs)
        n_ok = n_raise = n_err = n_undef = 0
        unk: dict = {}
        undecided: dict = {}
        seen_vals = {l: set() for l in labels}
        done = 0
        pool: list = []
        for s in range(self.samples):
            if time.time() - t0 > self.budget:
                break
            w = World(self.seed * 100003 + s, self.domains, aff, opts=self.opts)
            done += 1
            if pool and w.rng.random() < 0.65:
                w.parent = w.rng.choice(pool)
            ec = Evaluator(an, w, code.st.cells)
            try:
                oc = self.outcome(code, ec)
            except Unknown as e:
                unk[str(e)[:90]] = unk.get(str(e)[:90], 0) + 1
                self.cover(conds, ec)
                continue
            except EvalErr as e:
                oc = ("error", e.name)
            vals = {}
            if oc[0] == "ok":
                for l in labels:
                    try:
                        vals[l] = self.value(code, ec, l)
                    except Unknown as e:
                        undecided[l] = undecided.get(l, 0) + 1
                        unk[f"{l}: {e}"[:120]] = unk.get(f"{l}: {e}"[:120], 0) + 1
            cerr = oc[0] == "error" or any(is_err(v) for v in vals.values())
            self.cover(conds, ec)
            ok_any = False
            for ri, r in enumerate(self.refs):
                if not alive[ri]:
                    continue
                er = Evaluator(an, w, r.st.cells)
                try:
                    orf = self.outcome(r, er)
                except Unknown as e:
                    unk["ref " + str(e)[:90]] = unk.get("ref " + str(e)[:90], 0) + 1
                    continue
                except EvalErr as e:
                    orf = ("error", e.name)
                diff = None
                rvals = {}
                if orf[0] == "ok":
                    for l in labels:
                        try:
                            rvals[l] = self.value(r, er, l)
                        except Unknown as e:
                            unk[f"ref {l}: {e}"[:120]] = unk.get(f"ref {l}: {e}"[:120], 0) + 1
                rerr = orf[0] == "error" or any(is_err(v) for v in rvals.values())
                if rerr:
                    if not cerr:
                        n_undef += 1
                        continue
                elif oc[0] == "error" and orf == ("raise", oc[1]):
                    pass
                elif cerr:
                    # the reference is defined here, the code fails
                    if orf[0] != "ok" or len(rvals) == len(labels):
                        diff = next(((l, v, rvals.get(l)) for l, v in vals.items() if is_err(v)), ("exit", oc, orf))
                elif orf != oc:
                    diff = ("exit", oc, orf)
                elif oc[0] == "ok":
                    for l, v in vals.items():
                        if l not in rvals:
                            continue
                        if rvals[l] != v and not self.same_bytes(ec, v, er, rvals[l]):
                            diff = (l, v, rvals[l])
                            break
                        if ri == 0:
                            seen_vals[l].add(hash(repr(v)))
                if diff is not None:
                    alive[ri] = False
                    first[ri] = (s, diff)
                ok_any = True
            if ok_any:
                if cerr:
                    n_err += 1
                elif oc[0] == "ok":
                    n_ok += 1
                    pool.append(w.pol)
                    if len(pool) > 24:
                        del pool[w.rng.randrange(24)]
                elif oc[0] == "raise":
                    n_raise += 1
                else:
                    n_err += 1
            if not any(alive):
                break
        res.stats.update(samples=done, decided_ok=n_ok, decided_raise=n_raise, decided_error=n_err, spec_undefined=n_undef,
                         unknown=sum(unk.values()), unknown_reasons=dict(sorted(unk.items(), key=lambda kv: -kv[1])[:6]),
                         conditions=len(conds), both_ways=sum(len(v) == 2 for v in conds.values()),
                         one_way=sum(len(v) == 1 for v in conds.values()),
                         distinct={str(k): len(v) for k, v in seen_vals.items()}, terms=len(cterms), loops=len(cloops))
        res.conds = conds
        res.alive = alive
        res.first = first
        if alive[0]:
            res.status = "held"
        elif any(alive):
            res.status = "deviation"
            res.dev = alive.index(True)
        else:
            res.status = "differs"
        res.n_decided = n_ok + n_raise + n_err
        res.all_congruent = same_exits and len(eqlab) == len(labels) and code.ret is not None
        if res.status == "held" and not res.all_congruent and n_ok + n_raise == 0:
            res.status = "undecided"
        # a label that no valuation could compare and that is not congruent says nothing
        res.open_labels = [l for l in labels if l not in eqlab and not seen_vals[l]] if ref.ret is not None else []
        if res.status == "held" and res.open_labels:
            res.status = "undecided"
        return res

    def run_ends(self):
        """Whether every valuation of the results comes to an end; no reference is involved."""
        an, code = self.an, self.code
        res = Result()
        cterms, cloops = reach(an, code.roots(), code.st)
        aff = Affinity(an, cterms)
        conds = {}
        for u in cloops:
            for _, g in an.loops[u].exits:
                conds.setdefault(g.id, set())
        n_ok = n_raise = n_err = done = 0
        unk: dict = {}
        passes: dict = {}
        pool: list = []
        t0 = time.time()
        for s in range(self.samples):
            if time.time() - t0 > self.budget:
                break
            w = World(self.seed * 100003 + s, self.domains, aff, opts=self.opts)
            done += 1
            if pool and w.rng.random() < 0.4:
                w.parent = w.rng.choice(pool)
            ec = Evaluator(an, w, code.st.cells)
            try:
                oc = self.outcome(code, ec)
                if oc[0] == "ok":
                    ec.canon(ec.ev(code.ret, {}))
                    n_ok += 1
                    pool.append(w.pol)
                    del pool[:-24]
                elif oc[0] == "raise":
                    n_raise += 1
                else:
                    n_err += 1
            except Diverges as e:
                res.status = "differs"
                res.first = [(s, ("end", str(e), "the call returns"))]
                break
            except Unknown as e:
                unk[str(e)[:90]] = unk.get(str(e)[:90], 0) + 1
            except EvalErr:
                n_err += 1
            self.cover(conds, ec)
            for k, v in ec.passes.items():
                passes[k] = max(passes.get(k, 0), v)
        res.conds, res.all_congruent, res.n_decided = conds, False, n_ok + n_raise + n_err
        res.stats.update(samples=done, decided_ok=n_ok, decided_raise=n_raise, decided_error=n_err, unknown=sum(unk.values()),
                         unknown_reasons=dict(sorted(unk.items(), key=lambda kv: -kv[1])[:6]), conditions=len(conds),
                         both_ways=sum(len(v) == 2 for v in conds.values()), distinct={}, terms=len(cterms), loops=len(cloops), passes=passes,
                         congruent_labels=0, congruent_exits=False)
        if res.status == "held" and not n_ok + n_raise:
            res.status = "undecided"
        return res

    @staticmethod
    def same_bytes(ec, a, er, b):
        """A byte string already read out on one side only is compared by content."""
        try:
            (x, p), (y, q) = ec.solid(a), er.solid(b)
        except (Unknown, EvalErr):
            return False
        return p != q and x == y

    def cover(self, conds, ev):
        for k, v in ev.memo.items():
            i = k if isinstance(k, int) else k[0]
            c = conds.get(i)
            if c is not None and isinstance(v, (bool, int)) and len(c) < 2:
                c.add(bool(v))


def blame(an, code: Outcome, ref: Outcome, label, root):
    """Constructs of the analysed tree that take part in the differing value and have no counterpart."""
    if label is None or label == "exit" or code.labels is None:
        croots = [pc for pc, _ in code.raises] if label == "exit" else code.roots()
    else:
        croots = [code.labels[label]]
    ct, cl = reach(an, croots, code.st)
    rt, rl = reach(an, ref.roots(), ref.st)
    locs: dict = {}
    for i, t in ct.items():
        if i in rt:
            continue
        p = tm.prov.get(i)
        if p and p[0] is not None and p[0].mod.path.startswith(root):
            locs.setdefault((os.path.relpath(p[0].mod.path, root), p[0].qual), set()).add(p[1])
    out = []
    for (f, q), ls in sorted(locs.items()):
        out.append(f"{f}:{','.join(str(x) for x in sorted(ls)[:8])} {q}")
    return out[:12]
