"""Rules about what a later read may depend on: caches, state shared between objects, suspended readers."""
from __future__ import annotations

import ast

from vfa.effects import Package, handle_attr, is_stream_class

MUTATORS = {"append", "add", "update", "setdefault", "pop", "popitem", "clear", "extend", "insert", "remove", "discard", "appendleft", "__setitem__"}
CACHES = {"functools.lru_cache", "functools.cache", "functools.cached_property", "lru_cache", "cache", "cached_property", "cachetools.cached"}
MUTABLE_CALLS = {"dict", "list", "set", "defaultdict", "collections.defaultdict", "OrderedDict", "collections.OrderedDict", "collections.deque", "deque",
                 "bytearray", "collections.Counter", "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"}
WHOLE = {"list", "tuple", "set", "frozenset", "sorted", "dict", "sum", "max", "min"}


def is_mutable(pkg, m, v):
    if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(v, ast.Call) and (pkg.qual(m, v.func, v) or "") in MUTABLE_CALLS


def class_of(m, n):
    p = m.parents.get(n)
    while p is not None and not isinstance(p, ast.ClassDef):
        p = m.parents.get(p)
    return p


def family(pkg, c, seen=()):
    """A class, its bases and its subclasses within the package."""
    names = {c.name}
    grown = True
    while grown:
        grown = False
        for name, defs in pkg.classes.items():
            for _, d in defs:
                bases = {b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else "" for b in d.bases}
                if name in names:
                    new = {b for b in bases if b in pkg.classes} - names
                elif bases & names and name not in names:
                    new = {name}
                else:
                    new = set()
                if new:
                    names |= new
                    grown = True
    return [(m, d) for n in names for m, d in pkg.classes.get(n, [])]


def setup_functions(pkg):
    """Functions that run only while objects are built: constructors, class methods, and functions called from nowhere else."""
    funcs = [(m, n) for m in pkg.mods for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    always = set()
    for m, f in funcs:
        deco = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
        if f.name in ("__init__", "__new__", "__post_init__", "__init_subclass__") or "classmethod" in deco:
            always.add(f)
    setup = always | {f for _, f in funcs if pkg.calls_of.get(f.name)}
    changed = True
    while changed:
        changed = False
        for m, f in funcs:
            if f in setup and f not in always and any(pkg.func_of(m2, c) not in setup for m2, c in pkg.calls_of[f.name]):
                setup.discard(f)
                changed = True
    return setup


def assigned_attrs(pkg, skip):
    """Attributes that are assigned or changed in place outside the given functions: name -> places."""
    out = {}
    for m in pkg.mods:
        for n in ast.walk(m.tree):
            ts = []
            if isinstance(n, ast.Assign):
                ts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts = [n.target] if not (isinstance(n, ast.AnnAssign) and n.value is None) else []
            elif isinstance(n, ast.Delete):
                ts = n.targets
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                ts = [n.func.value]
            flat = []
            for t in ts:
                flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
            for t in flat:
                while isinstance(t, (ast.Subscript, ast.Starred)):
                    t = t.value
                if isinstance(t, ast.Attribute):
                    f = pkg.func_of(m, n)
                    if f is not None and f not in skip:
                        out.setdefault(t.attr, []).append((m, n, t))
    return out


def cached_functions(pkg):
    """(module, function, kind) of every function behind a cache, by decorator or by wrapping."""
    for m in pkg.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list:
                    q = pkg.qual(m, d.func if isinstance(d, ast.Call) else d, n) or ""
                    if q in CACHES:
                        yield m, n, q.split(".")[-1]
            elif isinstance(n, ast.Call):
                inner = n.func.func if isinstance(n.func, ast.Call) else n.func
                q = pkg.qual(m, inner, n) or ""
                if q in CACHES and n.args and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                    if isinstance(n.args[0], ast.Attribute) and isinstance(n.args[0].value, ast.Name) and n.args[0].value.id in ("self", "cls"):
                        c = class_of(m, n)
                        for f in c.body if c else []:
                            if isinstance(f, ast.FunctionDef) and f.name == n.args[0].attr:
                                yield m, f, q.split(".")[-1]
                    elif isinstance(n.args[0], ast.Name):
                        for f in m.tree.body:
                            if isinstance(f, ast.FunctionDef) and f.name == n.args[0].id:
                                yield m, f, q.split(".")[-1]


def closure(pkg, m, f):
    """The function and what it calls on its own object or in its module: (module, function)."""
    out, todo = [], [(m, f)]
    while todo:
        m, f = todo.pop()
        if any(x is f for _, x in out):
            continue
        out.append((m, f))
        c = class_of(m, f)
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and c is not None:
                for m2, d in family(pkg, c):
                    todo += [(m2, g) for g in d.body if isinstance(g, ast.FunctionDef) and g.name == n.attr]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                todo += [(m, g) for g in m.tree.body if isinstance(g, ast.FunctionDef) and g.name == n.func.id]
    return out


def cache_rule(pkg):
    out, count = [], 0
    setup = setup_functions(pkg)
    changed = assigned_attrs(pkg, setup)
    for m, f, kind in cached_functions(pkg):
        count += 1
        inside = closure(pkg, m, f)
        for m2, g in inside:
            for n in ast.walk(g):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in changed:
                    w = [x for x in changed[n.attr] if own(pkg, m2, g, x)
                         and not any(pkg.func_of(x[0], x[1]) is h for _, h in inside)]
                    if w:
                        out.append({"rule": "a cached result depends on what does not change", "where": pkg.where(m2, n) + f" (cached in {f.name}, changed at "
                                    + pkg.where(w[0][0], w[0][1]) + ")"})
            out += moved(pkg, m2, g, f)
        if kind == "cached_property" and f.args.args[1:]:
            out.append({"rule": "a cached result has complete keys", "where": pkg.where(m, f)})
    return out, count


def own(pkg, m, f, place):
    """Whether an assignment is to an attribute of the same class family (or of an object of unknown class)."""
    m2, n, t = place
    if isinstance(t.value, ast.Name) and t.value.id == "self":
        c, d = class_of(m, f), class_of(m2, n)
        return c is None or d is None or any(x is d for _, x in family(pkg, c))
    return True


def is_handle(pkg, m, e, n):
    """Whether an expression is a supplied stream: a parameter annotated as one, or an attribute assigned from one."""
    if isinstance(e, ast.Attribute):
        return handle_attr(pkg, e.attr) or e.attr.endswith("fh")
    if isinstance(e, ast.Name):
        for f in pkg.scopes(m, n):
            for p in pkg.params(f):
                if p.arg == e.id:
                    return p.annotation is not None and "BinaryIO" in ast.unparse(p.annotation)
            vs = pkg.local_values(m, f, e.id)
            if vs:
                return any(k == "value" and v is not None and is_handle(pkg, m, v, v) for k, v in vs if k == "value" and isinstance(v, (ast.Attribute, ast.Name)) and not
                           (isinstance(v, ast.Name) and v.id == e.id))
    return False


def stream_op(pkg, m, n):
    """'seek', 'read' or None for a call."""
    if not isinstance(n, ast.Call):
        return None
    f = n.func
    if isinstance(f, ast.Attribute) and is_handle(pkg, m, f.value, n):
        if f.attr == "seek":
            whence = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "whence"), None)
            if whence is None or isinstance(whence, ast.Constant) and whence.value in (0, 2):
                return "seek"
            return "read" if (pkg.qual(m, whence, n) or "").endswith("SEEK_CUR") or isinstance(whence, ast.Constant) else "seek"
        if f.attr in ("read", "readinto", "readline", "tell"):
            return "read"
    if positions(pkg, m, n):
        return "seek"
    if n.args and is_handle(pkg, m, n.args[0], n):
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        local = name in pkg.classes or any(isinstance(g, ast.FunctionDef) and g.name == name for x in pkg.mods for g in ast.walk(x.tree))
        if isinstance(f, ast.Attribute) and not local and isinstance(f.value, ast.Name) and f.value.id.startswith("c_"):
            return "read"
        if isinstance(f, ast.Subscript):
            return "read"
    return None


def positions(pkg, m, n):
    """Whether a call is to a function of the package that itself seeks."""
    name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
    if name in ("seek", "read"):
        return False
    known = pkg.__dict__.setdefault("_seeking", {})
    if name not in known:
        known[name] = False
        known[name] = any(stream_op(pkg, x, c) == "seek" for x in pkg.mods for g in ast.walk(x.tree) if isinstance(g, ast.FunctionDef) and g.name == name
                          for c in ast.walk(g) if isinstance(c, ast.Call))
    return known[name]


def moved(pkg, m, g, f):
    """In a cached function, a read at whatever position the stream is in."""
    out = []
    if g is not f or not any(is_handle(pkg, m, n, n) for n in ast.walk(g) if isinstance(n, (ast.Attribute, ast.Name))):
        return out
    first = []

    def walk(stmts, state):
        for s in stmts:
            state = visit(s, state)
        return state

    def visit(s, state):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return state
        heads = [x for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr)] + [w.context_expr for w in getattr(s, "items", [])]
        for e in heads:
            for n in ordered(e):
                op = stream_op(pkg, m, n)
                if op == "seek":
                    state = True
                elif op == "read" and not state:
                    first.append(n)
        subs = [getattr(s, k) for k in ("body", "orelse", "finalbody") if isinstance(getattr(s, k, None), list)]
        if isinstance(s, ast.If):
            a, b = walk(s.body, state), walk(s.orelse, state)
            return a and b or (a if ends(s.orelse) else b if ends(s.body) else False)
        for b in subs:
            state = walk(b, state) or state
        return state

    walk(g.body, False)
    return [{"rule": "a cached result does not depend on the position of a stream", "where": pkg.where(m, n)} for n in first]


def ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def ordered(e):
    """Nodes of an expression, operands before the operation."""
    for c in ast.iter_child_nodes(e):
        yield from ordered(c)
    yield e


def shared_rule(pkg):
    """Containers of a module, of a class or of a default argument that functions change."""
    out, count = [], 0
    for m in pkg.mods:
        module_level = {k for k, vs in m.globals.items() if any(v is not None and is_mutable(pkg, m, v) for v in vs)}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = n.args
                pos = a.posonlyargs + a.args
                named = list(zip(reversed(pos), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
                for p, d in named:
                    count += 1
                    if is_mutable(pkg, m, d) and changes(n, lambda t, p=p: isinstance(t, ast.Name) and t.id == p.arg):
                        out.append({"rule": "no state is kept in default arguments", "where": pkg.where(m, n)})
                locals_ = {x.arg for x in pkg.params(n)} | {y.id for y in ast.walk(n) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                globs = {x for y in ast.walk(n) if isinstance(y, ast.Global) for x in y.names}
                for t in changes(n, lambda t: isinstance(t, ast.Name) and t.id in module_level and (t.id not in locals_ or t.id in globs)):
                    if not text_only(pkg, m, t):
                        out.append({"rule": "no state is kept in the module", "where": pkg.where(m, t)})
                for y in ast.walk(n):
                    if isinstance(y, (ast.Assign, ast.AugAssign)):
                        for t in y.targets if isinstance(y, ast.Assign) else [y.target]:
                            if isinstance(t, ast.Name) and t.id in globs and not pkg.declared(m, y.value, y):
                                out.append({"rule": "no state is kept in the module", "where": pkg.where(m, y)})
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and n.name != "__init_subclass__" and (
                                    t.value.id == "cls" or t.value.id in pkg.classes) and not pkg.declared(m, y.value, y):
                                out.append({"rule": "no state is kept in the class", "where": pkg.where(m, y)})
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and t.value.attr == "__class__" and not pkg.declared(m, y.value, y):
                                out.append({"rule": "no state is kept in the class", "where": pkg.where(m, y)})
            elif isinstance(n, ast.ClassDef):
                level = set()
                for s in n.body:
                    t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
                    if isinstance(t, ast.Name) and is_mutable(pkg, m, s.value):
                        level.add(t.id)
                        count += 1
                for m2, d in family(pkg, n):
                    for s in ast.walk(d):
                        if isinstance(s, (ast.Assign, ast.AnnAssign)):
                            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and in_setup(pkg, m2, s):
                                    level.discard(t.attr)
                if level:
                    for m2 in pkg.mods:
                        for t in changes(m2.tree, lambda t: isinstance(t, ast.Attribute) and t.attr in level):
                            if (pkg.func_of(m2, t)) is not None and not text_only(pkg, m2, t):
                                out.append({"rule": "no state is kept in the class", "where": pkg.where(m2, t)})
    return out, count


def in_setup(pkg, m, s):
    f = pkg.func_of(m, s)
    return f is not None and f.name in ("__init__", "__new__", "__post_init__")


def text_only(pkg, m, t):
    """Whether what is stored comes from the program text."""
    p = m.parents.get(t)
    while p is not None and not isinstance(p, (ast.stmt, ast.Call)):
        p = m.parents.get(p)
    if isinstance(p, ast.Assign):
        return pkg.declared(m, p.value, p)
    if isinstance(p, ast.Call):
        return bool(p.args) and all(pkg.declared(m, a, p) for a in p.args)
    return False


def changes(tree, match):
    """The container expressions, accepted by match, that a tree changes in place."""
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and match(n.func.value):
            out.append(n.func.value)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]:
                for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(x, ast.Subscript) and match(x.value):
                        out.append(x.value)
                    elif isinstance(n, ast.AugAssign) and match(x):
                        out.append(x)
    return out


def resumes_unpositioned(pkg, m, g):
    """Reads of a generator that can follow a yield without a seek in between."""
    bad = []

    def block(stmts, states):
        for s in stmts:
            states = stmt(s, states)
        return states

    def stmt(s, states):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return states
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            states = exprs([s.iter] if not isinstance(s, ast.While) else [s.test], states)
            for _ in range(2):
                states = states | exprs([s.test] if isinstance(s, ast.While) else [], block(s.body, states))
            return block(s.orelse, states)
        if isinstance(s, ast.If):
            states = exprs([s.test], states)
            return block(s.body, states) | block(s.orelse, states)
        if isinstance(s, ast.Try):
            a = block(s.body, states)
            for h in s.handlers:
                a = a | block(h.body, a | states)
            return block(s.finalbody, block(s.orelse, a))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return block(s.body, exprs([i.context_expr for i in s.items], states))
        return exprs([x for x in ast.iter_child_nodes(s) if isinstance(x, ast.expr)], states)

    def exprs(es, states):
        for e in es:
            for n in ordered(e):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    states = frozenset({"suspended"})
                    continue
                op = stream_op(pkg, m, n)
                if op == "seek":
                    states = frozenset({"placed"})
                elif op == "read" and "suspended" in states:
                    bad.append(n)
        return states

    block(g.body, frozenset({"placed"}))
    return bad


def generator_rule(pkg):
    """A generator that reads on after a yield without positioning is only used up at once."""
    out, count = [], 0
    for m in pkg.mods:
        for g in ast.walk(m.tree):
            if not isinstance(g, ast.FunctionDef):
                continue
            if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) and pkg.func_of(m, n) is g for n in ast.walk(g)):
                continue
            count += 1
            bad = resumes_unpositioned(pkg, m, g)
            if not bad:
                continue
            for m2, c in pkg.calls_of.get(g.name, []):
                if not same_callee(pkg, m, g, m2, c):
                    continue
                if not used_up(pkg, m2, c):
                    out.append({"rule": "a suspended reader positions its stream", "where": pkg.where(m, bad[0]) + " (kept open at " + pkg.where(m2, c) + ")"})
            if any(isinstance(d, ast.Name) and d.id == "property" for d in g.decorator_list) or not g.name.startswith("_"):
                out.append({"rule": "a suspended reader positions its stream", "where": pkg.where(m, bad[0])})
    return out, count


def same_callee(pkg, m, g, m2, c):
    cg, cc = class_of(m, g), class_of(m2, c)
    if cg is None:
        return isinstance(c.func, ast.Name) or m is not m2
    if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" and cc is not None:
        return any(x is cg for _, x in family(pkg, cc))
    return True


def used_up(pkg, m, c):
    p = m.parents.get(c)
    if isinstance(p, ast.Call) and c in p.args:
        q = pkg.qual(m, p.func, p) or ""
        if q in WHOLE or isinstance(p.func, ast.Attribute) and p.func.attr in ("extend", "join", "update"):
            return True
        if q in ("enumerate", "zip", "filter", "map", "iter", "reversed"):
            return used_up(pkg, m, p)
        return False
    if isinstance(p, ast.Starred):
        return True
    if isinstance(p, ast.comprehension):
        return not isinstance(m.parents.get(p), ast.GeneratorExp) or used_up(pkg, m, m.parents.get(p))
    if isinstance(p, ast.YieldFrom):
        return True
    if isinstance(p, ast.For) and p.iter is c:
        return not any(stream_op(pkg, m, n) or isinstance(n, (ast.Yield, ast.YieldFrom)) for s in p.body for n in ast.walk(s))
    return False


def kept(pkg, m, e, n, cached, seen=()):
    """The construct that makes a value one that was made before: a stored attribute, an element of a container, a cached or supplied value. None if it is new."""
    if e is None or id(e) in seen or len(seen) > 12:
        return None
    seen = (*seen, id(e))
    again = lambda x, mm=m: kept(pkg, mm, x, x, cached, seen)
    if isinstance(e, ast.IfExp):
        return again(e.body) or again(e.orelse)
    if isinstance(e, ast.BoolOp):
        return next((r for v in e.values if (r := again(v))), None)
    if isinstance(e, ast.NamedExpr):
        return again(e.value)
    if isinstance(e, ast.Name):
        for f in pkg.scopes(m, n):
            vs = pkg.local_values(m, f, e.id)
            if vs:
                for k, v in vs:
                    if k == "param" and v.annotation is not None and "BinaryIO" in ast.unparse(v.annotation):
                        return pkg.where(m, e)
                    if k == "value" and (r := again(v)):
                        return r
                return None
        return pkg.where(m, e) if e.id in m.globals and any(v is not None and not isinstance(v, ast.Constant) for v in m.globals[e.id]) else None
    if isinstance(e, ast.Subscript):
        b = e.value
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id in ("self", "cls") or isinstance(b, ast.Name) and b.id in m.globals:
            return pkg.where(m, e)
        return None
    defs = []
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls"):
        c = class_of(m, e)
        fam = family(pkg, c) if c is not None else []
        defs = [(m2, g) for m2, d in fam for g in d.body if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and g.name == e.attr]
        stored = [v for m2, d in fam for x in ast.walk(d) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None
                  for v in (x.targets if isinstance(x, ast.Assign) else [x.target])
                  if isinstance(v, ast.Attribute) and v.attr == e.attr and isinstance(v.value, ast.Name) and v.value.id in ("self", "cls")]
        if stored and not defs:
            return pkg.where(m, e)
    elif isinstance(e, ast.Attribute) and handle_attr(pkg, e.attr):
        return pkg.where(m, e)
    elif isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ("get", "setdefault") and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) \
                and f.value.value.id in ("self", "cls"):
            return pkg.where(m, e)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls"):
            c = class_of(m, e)
            defs = [(m2, g) for m2, d in (family(pkg, c) if c is not None else []) for g in d.body
                    if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and g.name == f.attr]
        elif isinstance(f, ast.Name):
            defs = [(m, g) for g in m.tree.body if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and g.name == f.id]
    for m2, g in defs:
        if g in cached:
            return pkg.where(m, e)
        for r in ast.walk(g):
            if isinstance(r, ast.Return) and pkg.func_of(m2, r) is g and (x := again(r.value, m2)):
                return x
    return None


def gives_stream(pkg, f):
    if f.returns is None:
        return True
    names = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(f.returns) if isinstance(n, (ast.Name, ast.Attribute))}
    return bool(names & {"BinaryIO", "IO", "AlignedStream"}) or any(is_stream_class(pkg, c) for n in names for _, c in pkg.classes.get(n, []))


def opening_rule(pkg):
    """What an opening function hands out is made by that call."""
    out, count = [], 0
    cached = [f for _, f, _ in cached_functions(pkg)]
    for m in pkg.mods:
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            c = m.parents.get(f)
            if not (f.name == "open" or f.name.startswith("open_") and gives_stream(pkg, f)
                    or f.name == "__new__" and isinstance(c, ast.ClassDef) and is_stream_class(pkg, c)):
                continue
            if f in cached:
                out.append({"rule": "an opened stream is new", "where": pkg.where(m, f)})
            for r in ast.walk(f):
                if isinstance(r, ast.Return) and r.value is not None and pkg.func_of(m, r) is f:
                    count += 1
                    x = kept(pkg, m, r.value, r, cached)
                    if x:
                        out.append({"rule": "an opened stream is new", "where": pkg.where(m, r) + " (kept at " + x + ")"})
    return out, count


def run_opening(repo, samples, quiet):
    errors = []
    for name, src in samples.items():
        if not opening_rule(Package("", {"sample": src}))[0]:
            errors.append(f"built-in sample {name} is not reported")
    for name, src in quiet.items():
        r = opening_rule(Package("", {"sample": src}))[0]
        if r:
            errors.append(f"built-in sample {name} is reported: {r[0]}")
    pkg = Package(repo)
    found, n = opening_rule(pkg)
    if n < 12:
        errors.append(f"only {n} results of opening functions were found")
    return {"findings": found, "errors": errors, "coverage": {"obligations": n, "functions_scanned": pkg.stats["functions"], "openings": n,
                                                               "samples_reported": len(samples), "samples_quiet": len(quiet)}}


def run(repo, samples, quiet):
    errors = []

    def all_rules(pkg):
        a, b, c = cache_rule(pkg), shared_rule(pkg), generator_rule(pkg)
        return a[0] + b[0] + c[0], {"cached_functions": a[1], "shared_candidates": b[1], "generators": c[1]}

    for name, src in samples.items():
        if not all_rules(Package("", {"sample": src}))[0]:
            errors.append(f"built-in sample {name} is not reported")
    for name, src in quiet.items():
        r = all_rules(Package("", {"sample": src}))[0]
        if r:
            errors.append(f"built-in sample {name} is reported: {r[0]}")
    pkg = Package(repo)
    found, cov = all_rules(pkg)
    seen, uniq = set(), []
    for f in found:
        if (f["rule"], f["where"]) not in seen:
            seen.add((f["rule"], f["where"]))
            uniq.append(f)
    if pkg.stats["functions"] < 150:
        errors.append(f"only {pkg.stats['functions']} functions were found")
    return {"findings": uniq, "errors": errors, "coverage": {"rules": {**cov, **pkg.stats, "samples_reported": len(samples), "samples_quiet": len(quiet)}}}
