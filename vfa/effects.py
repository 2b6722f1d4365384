"""Effect rules over the resolved syntax of the whole package: who writes, closes, executes, or reaches outside."""
from __future__ import annotations

import ast
import os

BUILTIN_EXEC = {"eval", "exec", "compile", "__import__", "breakpoint", "input"}
BUILTIN_FILE = {"open"}
EXEC_MODULES = {"pickle", "cPickle", "_pickle", "marshal", "shelve", "dill", "cloudpickle", "joblib", "jsonpickle", "subprocess", "importlib", "imp",
                "runpy", "code", "codeop", "pkgutil", "zipimport", "ctypes", "cffi", "pdb", "pty", "multiprocessing", "builtins", "gc", "inspect", "timeit",
                "trace", "cProfile", "doctest", "lib2to3", "xmlrpc", "nt", "posix"}
NET_MODULES = {"socket", "ssl", "urllib", "urllib3", "http", "ftplib", "smtplib", "poplib", "imaplib", "telnetlib", "nntplib", "requests", "aiohttp",
               "httpx", "socketserver", "asyncio", "webbrowser", "paramiko", "select", "selectors"}
FILE_MODULES = {"shutil", "tempfile", "fileinput", "glob", "linecache", "sqlite3", "dbm", "zipfile", "tarfile", "mmap", "fcntl", "msvcrt", "winreg",
                "signal", "resource", "pwd", "grp", "tokenize", "fnmatch_", "filecmp", "netrc", "configparser_"}
OS_PURE = {"getenv", "environ", "environb", "path", "SEEK_SET", "SEEK_CUR", "SEEK_END", "sep", "linesep", "name", "fspath", "fsdecode", "fsencode",
           "PathLike", "strerror", "altsep", "extsep", "curdir", "pardir", "devnull", "pathsep", "cpu_count", "urandom"}
OS_PATH_PURE = {"join", "basename", "dirname", "split", "splitext", "normpath", "isabs", "sep", "commonprefix", "commonpath", "splitdrive", "normcase"}
WRITE_NAMES = {"write", "writelines", "truncate", "write_text", "write_bytes", "pwrite", "_write", "writeinto"}
CLOSE_NAMES = {"close", "detach", "closefd", "__exit__"}
PATH_WRITE = {"write_text", "write_bytes", "unlink", "mkdir", "rmdir", "touch", "symlink_to", "hardlink_to", "link_to", "chmod", "lchmod"}
PATH_READ = {"read_text", "read_bytes", "iterdir", "rglob", "is_file", "is_dir", "is_block_device", "lstat", "expanduser"}
WRAPPERS = {"io.TextIOWrapper", "io.BufferedReader", "io.BufferedWriter", "io.BufferedRandom", "io.BufferedRWPair", "contextlib.closing",
            "codecs.getreader", "codecs.StreamReader", "codecs.EncodedFile"}
DUMPERS = {"json.dump", "csv.writer", "csv.DictWriter", "logging.StreamHandler", "logging.FileHandler", "logging.basicConfig", "gzip.open",
           "gzip.GzipFile", "bz2.open", "bz2.BZ2File", "lzma.open", "lzma.LZMAFile", "plistlib.dump", "struct.pack_into_", "faulthandler.enable"}
FRESH = {"io.BytesIO", "io.StringIO", "bytearray", "list", "dict", "set"}
DECL = {"get_type_hints", "typing.get_type_hints", "fields", "dataclasses.fields", "get_annotations", "typing.get_args", "get_args"}
DECL_ATTR = {"__annotations__", "__slots__", "__dataclass_fields__", "__members__", "_fields", "__match_args__"}


class Module:
    def __init__(self, path, name, src):
        self.path, self.name = path, name
        self.tree = ast.parse(src)
        self.imports: dict = {}
        self.globals: dict = {}
        self.parents: dict = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parents[c] = n
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = name.split(".")
                    base = ".".join(parts[: len(parts) - n.level] + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = f"{base}.{a.name}" if base else a.name
        for n in self.tree.body:
            for t, v in bindings(n):
                self.globals.setdefault(t, []).append(v)


def bindings(n):
    """(name, value) pairs bound by a simple statement; value None when it is not a plain expression."""
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Name):
                yield t.id, n.value
            elif isinstance(t, (ast.Tuple, ast.List)):
                vs = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else [n.value] * len(t.elts)
                for x, v in zip(t.elts, vs):
                    if isinstance(x, ast.Name):
                        yield x.id, v
    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
        yield n.target.id, n.value
    elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
        yield n.target.id, n.value
    elif isinstance(n, ast.NamedExpr):
        yield n.target.id, n.value
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        yield n.name, None


class Package:
    def __init__(self, repo, sources=None):
        self.mods: list[Module] = []
        if sources is None:
            root = os.path.join(repo, "dissect")
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(".py"):
                        p = os.path.join(d, f)
                        name = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                        if name.endswith(".__init__"):
                            name = name[: -len(".__init__")]
                        with open(p, encoding="utf-8") as h:
                            self.mods.append(Module(os.path.relpath(p, repo), name, h.read()))
        else:
            for name, src in sources.items():
                self.mods.append(Module(name + ".py", name, src))
        self.attr_assign: dict = {}
        self.calls_of: dict = {}
        self.classes: dict = {}
        self.stats = {"modules": len(self.mods), "functions": 0, "calls": 0, "attributes": 0, "with": 0, "imports": 0, "classes": 0}
        for m in self.mods:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    self.stats["functions"] += 1
                elif isinstance(n, ast.ClassDef):
                    self.stats["classes"] += 1
                    self.classes.setdefault(n.name, []).append((m, n))
                elif isinstance(n, ast.Call):
                    self.stats["calls"] += 1
                    f = n.func
                    self.calls_of.setdefault(f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None, []).append((m, n))
                elif isinstance(n, ast.Attribute):
                    self.stats["attributes"] += 1
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    self.stats["with"] += 1
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.stats["imports"] += 1
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Attribute) and n.value is not None:
                            self.attr_assign.setdefault(t.attr, []).append((m, n.value))

    # ------------------------------------------------------------------ scopes and names
    def func_of(self, m, n):
        p = m.parents.get(n)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            p = m.parents.get(p)
        return p

    def where(self, m, n):
        q = []
        p = n
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q.append(p.name)
            p = m.parents.get(p)
        return f"{m.path}:{n.lineno} {'.'.join(reversed(q)) or '<module>'}: {ast.unparse(n)[:80]}"

    def params(self, f):
        a = f.args
        return [x for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])]

    def local_values(self, m, f, name):
        """Expressions bound to a name in a function: (kind, expr). None when the name is not local."""
        out = []
        for x in self.params(f):
            if x.arg == name:
                out.append(("param", x))
        for n in ast.walk(f):
            for t, v in bindings(n):
                if t == name and n is not f:
                    out.append(("value", v) if v is not None else ("def", n))
            if isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                out.append(("iter", n.iter))
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(i.optional_vars)):
                        out.append(("with", i.context_expr))
        return out or None

    def scopes(self, m, n):
        f = self.func_of(m, n)
        while f is not None:
            yield f
            f = self.func_of(m, f)

    def bound(self, m, n):
        """Whether a name is bound in the program."""
        return n.id in m.imports or n.id in m.globals or any(self.local_values(m, f, n.id) for f in self.scopes(m, n))

    def qual(self, m, e, n=None, depth=0):
        """Fully qualified name of an expression, through imports and plain aliases; builtins as their own name. None if not static."""
        n = n if n is not None else e
        if isinstance(e, ast.Attribute):
            b = self.qual(m, e.value, n, depth)
            return f"{b}.{e.attr}" if b else None
        if isinstance(e, ast.Name):
            for f in self.scopes(m, n):
                vs = self.local_values(m, f, e.id)
                if vs:
                    if len(vs) == 1 and vs[0][0] == "value" and depth < 4:
                        return self.qual(m, vs[0][1], n, depth + 1)
                    return None
            if e.id in m.imports:
                return m.imports[e.id]
            if e.id in m.globals:
                vs = m.globals[e.id]
                if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)) and depth < 4:
                    return self.qual(m, vs[0], vs[0], depth + 1)
                return f"{m.name}.{e.id}"
            return e.id
        return None

    # ------------------------------------------------------------------ origin of stream values
    def origin(self, m, e, n, depth=0, seen=()):
        if depth > 5 or e is None:
            return {"unknown"}
        if isinstance(e, ast.Call):
            q = self.qual(m, e.func, n) or ""
            if q in FRESH or q in ("BytesIO", "StringIO"):
                return {"fresh"}
            if q.startswith("hashlib.") or q.startswith("zlib."):
                return {"fresh"}
            last = e.func.attr if isinstance(e.func, ast.Attribute) else q.split(".")[-1]
            if q in WRAPPERS:
                return {"given"}
            if last == "open" or last.startswith("open_") or (last[:1].isupper() and last in self.classes) or q.startswith("dissect.util.stream."):
                return {"own"}
            return {"unknown"}
        if isinstance(e, ast.Name):
            for f in self.scopes(m, n):
                vs = self.local_values(m, f, e.id)
                if vs:
                    out = set()
                    for k, v in vs:
                        if (id(v)) in seen:
                            continue
                        if k == "param":
                            out.add("given")
                        elif k in ("value", "with"):
                            out |= self.origin(m, v, n, depth + 1, (*seen, id(v)))
                        else:
                            out.add("unknown")
                    return out or {"unknown"}
            q = self.qual(m, e, n)
            return {"unknown"} if q not in ("sys.stdout", "sys.stderr") else {"fresh"}
        if isinstance(e, ast.Attribute):
            if self.qual(m, e, n) in ("sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__"):
                return {"fresh"}
            vs = self.attr_assign.get(e.attr)
            if not vs:
                return {"unknown"}
            out = set()
            for m2, v in vs:
                if id(v) in seen:
                    continue
                out |= self.origin(m2, v, v, depth + 1, (*seen, id(v)))
            return out or {"unknown"}
        if isinstance(e, ast.IfExp):
            return self.origin(m, e.body, n, depth + 1, seen) | self.origin(m, e.orelse, n, depth + 1, seen)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.origin(m, v, n, depth + 1, seen)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.origin(m, e.value, n, depth + 1, seen)
        if isinstance(e, ast.Constant):
            return {"fresh"}
        return {"unknown"}

    # ------------------------------------------------------------------ constants
    def declared(self, m, e, n, depth=0, seen=frozenset()):
        """Whether a value comes from the program text (constants, declarations) alone."""
        if depth > 8:
            return False
        d = lambda x, nn=n: self.declared(m, x, nn, depth + 1, seen)
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return all(d(x) for x in e.elts)
        if isinstance(e, ast.Starred):
            return d(e.value)
        if isinstance(e, ast.Dict):
            return all(d(x) for x in e.keys if x is not None)
        if isinstance(e, ast.JoinedStr):
            return all(d(x) for x in e.values)
        if isinstance(e, ast.FormattedValue):
            return d(e.value)
        if isinstance(e, ast.BinOp):
            return d(e.left) and d(e.right)
        if isinstance(e, ast.IfExp):
            return d(e.body) and d(e.orelse)
        if isinstance(e, ast.BoolOp):
            return all(d(x) for x in e.values)
        if isinstance(e, ast.Subscript):
            return d(e.value)
        if isinstance(e, ast.NamedExpr):
            return d(e.value)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return all(d(g.iter) for g in e.generators)
        if isinstance(e, ast.DictComp):
            return all(d(g.iter) for g in e.generators)
        if isinstance(e, ast.Attribute):
            if e.attr in DECL_ATTR:
                return True
            if e.attr in ("__name__", "__qualname__"):
                return True
            if instance(e.value):
                return self.attr_declared(e.attr, depth, seen)
            return d(e.value)
        if isinstance(e, ast.Call):
            q = self.qual(m, e.func, n) or ""
            if q in DECL or q.split(".")[-1] in ("get_type_hints", "get_annotations"):
                return True
            if isinstance(e.func, ast.Attribute) and instance(e.func.value):
                return self.attr_declared(e.func.attr, depth, seen) and all(d(a) for a in e.args)
            if isinstance(e.func, ast.Attribute) and q.split(".")[0] not in ("typing", "dataclasses") and d(e.func.value):
                return all(d(a) for a in e.args)
            if q in ("enumerate", "zip", "sorted", "list", "tuple", "reversed", "set", "dict", "str", "range", "iter", "next", "map", "filter", "len",
                     "type", "frozenset"):
                return all(d(a) for a in e.args) if q != "type" else True
            return False
        if isinstance(e, ast.Name):
            key = (m.name, id(self.func_of(m, n)), e.id)
            if key in seen:
                return True
            s2 = seen | {key}
            for f in self.scopes(m, n):
                vs = self.local_values(m, f, e.id)
                if vs:
                    for k, v in vs:
                        if k == "param":
                            if v.arg in ("self", "cls"):
                                continue
                            if not self.param_declared(m, f, v, depth, s2):
                                return False
                        elif k in ("value", "iter"):
                            if not self.declared(m, v, v, depth + 1, s2):
                                return False
                        elif k == "with":
                            return False
                    return True
            if e.id in m.globals:
                return all(v is None or self.declared(m, v, v, depth + 1, s2) for v in m.globals[e.id])
            if e.id in m.imports:
                return True
            return False
        return False

    def attr_declared(self, attr, depth, seen):
        """Whether every value an attribute is given, in any class or by any assignment, comes from the program text."""
        if ("attr", attr) in seen:
            return True
        s2 = seen | {("attr", attr)}
        vs = list(self.attr_assign.get(attr, []))
        for defs in self.classes.values():
            for m, c in defs:
                for n in c.body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == attr:
                        vs += [(m, r.value) for r in ast.walk(n) if isinstance(r, ast.Return)] or [(m, None)]
                    vs += [(m, v) for t, v in bindings(n) if t == attr and v is not None]
                    if isinstance(n, ast.AnnAssign) and n.value is None and isinstance(n.target, ast.Name) and n.target.id == attr:
                        vs.append((m, None))
        return bool(vs) and all(v is not None and self.declared(m, v, v, depth + 1, s2) for m, v in vs)

    def param_declared(self, m, f, p, depth, seen):
        if isinstance(f, ast.Lambda):
            return False
        pos = [x.arg for x in f.args.posonlyargs + f.args.args]
        method = isinstance(m.parents.get(f), ast.ClassDef)
        static = any(isinstance(x, ast.Name) and x.id == "staticmethod" for x in f.decorator_list)
        sites = self.calls_of.get(f.name, [])
        if not sites:
            return False
        for m2, c in sites:
            a = None
            for k in c.keywords:
                if k.arg == p.arg:
                    a = k.value
            if a is None and p.arg in pos:
                i = pos.index(p.arg) - (1 if method and not static else 0)
                if i < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args):
                    a = c.args[i]
            if a is None:
                defaults = dict(zip(reversed(pos), reversed(f.args.defaults)))
                defaults.update({x.arg: v for x, v in zip(f.args.kwonlyargs, f.args.kw_defaults) if v is not None})
                if p.arg in defaults:
                    a = defaults[p.arg]
                    m2 = m
            if a is None or not self.declared(m2, a, a, depth + 1, seen):
                return False
        return True


def instance(e):
    """self, cls, type(self) or self.__class__"""
    if isinstance(e, ast.Attribute) and e.attr == "__class__":
        return instance(e.value)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
        return instance(e.args[0])
    return isinstance(e, ast.Name) and e.id in ("self", "cls")


def only_raises(f):
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def in_annotation(m, n):
    p, c = m.parents.get(n), n
    while p is not None:
        if isinstance(p, ast.arg) and p.annotation is c or isinstance(p, ast.AnnAssign) and p.annotation is c:
            return True
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and p.returns is c:
            return True
        if isinstance(p, ast.If) and isinstance(p.test, ast.Name) and p.test.id == "TYPE_CHECKING":
            return True
        c, p = p, m.parents.get(p)
    return False


def const_str(e):
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None


def is_stream_class(pkg, c, depth=0):
    for b in c.bases:
        n = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else ""
        if n.endswith("Stream") or n in ("RawIOBase", "IOBase", "BufferedIOBase", "BytesIO", "BinaryIO"):
            return True
        if depth < 4 and any(is_stream_class(pkg, k, depth + 1) for _, k in pkg.classes.get(n, [])):
            return True
    return False


def write_effects(pkg):
    """Constructs that may modify or close a supplied stream, or change files."""
    out = []

    def hit(rule, m, n):
        out.append({"rule": rule, "where": pkg.where(m, n)})

    for m in pkg.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not in_annotation(m, n):
                own_super = isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super"
                if n.attr in WRITE_NAMES and not own_super:
                    if not pkg.origin(m, n.value, n) <= {"fresh"}:
                        hit("no stream is written to", m, n)
                elif n.attr in CLOSE_NAMES and not own_super:
                    if not pkg.origin(m, n.value, n) <= {"fresh", "own"}:
                        hit("no supplied stream is closed", m, n)
                elif n.attr == "getbuffer":
                    if not pkg.origin(m, n.value, n) <= {"fresh"}:
                        hit("no writable view of a supplied stream is taken", m, n)
                elif n.attr in PATH_WRITE:
                    hit("no files are changed", m, n)
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and not in_annotation(m, n):
                q = pkg.qual(m, n)
                if q in BUILTIN_FILE or q in ("io.open", "io.FileIO", "_io.open", "codecs.open", "io.open_code", "builtins.open", "pathlib.Path.open"):
                    hit("no files are opened", m, n)
                elif q and q.split(".")[0] in ("shutil", "tempfile", "fileinput", "sqlite3", "dbm", "shelve", "zipfile", "tarfile", "mmap", "fcntl"):
                    if not (isinstance(m.parents.get(n), ast.Attribute)):
                        hit("no files are changed", m, n)
                elif q and q.startswith("os.") and q.split(".")[1] not in OS_PURE:
                    hit("no files are changed", m, n)
            if isinstance(n, ast.Call):
                q = pkg.qual(m, n.func, n) or ""
                if q in WRAPPERS and n.args and not pkg.origin(m, n.args[0], n) <= {"fresh", "own"}:
                    hit("no wrapper that closes a supplied stream", m, n)
                if q in DUMPERS:
                    hit("no writer is attached to a stream or file", m, n)
                if q == "print":
                    for k in n.keywords:
                        if k.arg == "file" and not pkg.origin(m, k.value, n) <= {"fresh"}:
                            hit("no stream is written to", m, n)
                if q in ("getattr", "operator.methodcaller", "operator.attrgetter") and n.args:
                    s = const_str(n.args[1 if q == "getattr" and len(n.args) > 1 else 0])
                    if s in WRITE_NAMES | CLOSE_NAMES:
                        hit("no stream is written to or closed by name", m, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr == "enter_context" and n.args:
                    if not pkg.origin(m, n.args[0], n) <= {"fresh", "own"}:
                        hit("no supplied stream is closed", m, n)
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    e = i.context_expr
                    if isinstance(e, (ast.Name, ast.Attribute)) and "given" in pkg.origin(m, e, n):
                        hit("no supplied stream is closed by a with block", m, e)
            if isinstance(n, ast.ClassDef) and is_stream_class(pkg, n):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        if f.name in WRITE_NAMES and not only_raises(f):
                            hit("streams are read-only", m, f)
                        if f.name == "writable":
                            rets = [r for r in ast.walk(f) if isinstance(r, ast.Return)]
                            if any(not (isinstance(r.value, ast.Constant) and r.value.value is False) for r in rets):
                                hit("streams are read-only", m, f)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and (n.name == "open" or n.name.startswith("open_")):
                for r in ast.walk(n):
                    if isinstance(r, ast.Return) and r.value is not None and pkg.func_of(m, r) is n:
                        if isinstance(r.value, ast.Attribute) and "given" in pkg.origin(m, r.value, r) and handle_attr(pkg, r.value.attr):
                            hit("opened volumes are streams of their own, not the supplied one", m, r)
                        if isinstance(r.value, ast.Name) and any(k == "value" and isinstance(v, ast.Attribute) and handle_attr(pkg, v.attr)
                                                                 for k, v in pkg.local_values(m, n, r.value.id) or []):
                            hit("opened volumes are streams of their own, not the supplied one", m, r)
    return out


def handle_attr(pkg, attr):
    """Whether an attribute holds a supplied stream: assigned from a parameter annotated as one."""
    for m, v in pkg.attr_assign.get(attr, []):
        if isinstance(v, ast.Name):
            f = pkg.func_of(m, v)
            if f is not None:
                for p in pkg.params(f):
                    if p.arg == v.id and p.annotation is not None and "BinaryIO" in ast.unparse(p.annotation):
                        return True
    return False


def exec_effects(pkg):
    """Constructs that evaluate input, or reach a program, file or network."""
    out = []

    def hit(rule, m, n):
        out.append({"rule": rule, "where": pkg.where(m, n)})

    for m in pkg.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and not in_annotation(m, n):
                q = pkg.qual(m, n) or ""
                top = q.split(".")[0]
                if q in BUILTIN_EXEC or q in {f"builtins.{x}" for x in BUILTIN_EXEC}:
                    hit("input is not evaluated", m, n)
                elif q in BUILTIN_FILE or q in ("io.open", "io.FileIO", "_io.open", "codecs.open", "io.open_code", "builtins.open"):
                    hit("no files are opened", m, n)
                elif isinstance(m.parents.get(n), ast.Attribute):
                    pass  # reported once, at the full name
                elif top in EXEC_MODULES:
                    hit("nothing is executed, imported or unpickled", m, n)
                elif top in NET_MODULES:
                    hit("no network", m, n)
                elif top in FILE_MODULES:
                    hit("no files are opened", m, n)
                elif q.startswith("os.path.") and q.split(".")[2] not in OS_PATH_PURE:
                    hit("no files are opened", m, n)
                elif q.startswith("os.") and q.split(".")[1] not in OS_PURE:
                    hit("no programs or files", m, n)
                elif q.startswith(("yaml.", "ruamel.")) and "safe" not in q.lower():
                    hit("input is not evaluated", m, n)
                elif q.startswith("xml."):
                    hit("no outside entities", m, n)
            if isinstance(n, (ast.Import, ast.ImportFrom)) and not in_annotation(m, n):
                for a in n.names:
                    top = (n.module or "") if isinstance(n, ast.ImportFrom) and not n.level else a.name if isinstance(n, ast.Import) else ""
                    if top.split(".")[0] in (EXEC_MODULES | NET_MODULES) - {"inspect", "gc", "timeit", "code", "select", "asyncio"}:
                        hit("no module that executes or connects is loaded", m, n)
            if isinstance(n, ast.Attribute) and n.attr in PATH_READ | PATH_WRITE and isinstance(m.parents.get(n), ast.Call):
                hit("no files are opened", m, n)
            if isinstance(n, ast.Attribute) and n.attr in ("__globals__", "__builtins__", "__subclasses__", "__code__", "__loader__", "__reduce__"):
                hit("no reflection into the interpreter", m, n)
            if isinstance(n, ast.Call):
                q = pkg.qual(m, n.func, n) or ""
                if q in ("getattr", "setattr", "delattr", "hasattr") and len(n.args) > 1 and not pkg.declared(m, n.args[1], n):
                    hit("attribute names come from declarations", m, n)
                if q in ("operator.attrgetter", "operator.methodcaller") and n.args and not pkg.declared(m, n.args[0], n):
                    hit("attribute names come from declarations", m, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("__getattribute__", "__setattr__", "__getattr__") and n.args:
                    if not pkg.declared(m, n.args[-2 if n.func.attr == "__setattr__" and len(n.args) > 1 else -1], n):
                        hit("attribute names come from declarations", m, n)
                if q == "type" and len(n.args) == 3 and not pkg.declared(m, n.args[2], n):
                    hit("attribute names come from declarations", m, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "format_map") and not isinstance(n.func.value, ast.Constant):
                    if not pkg.declared(m, n.func.value, n):
                        hit("format strings come from the program", m, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("load", "loadfile") and n.args and not pkg.declared(m, n.args[0], n):
                    hit("structure definitions come from the program", m, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "get", "pop", "setdefault", "__getitem__", "__setitem__") \
                        and reflective(pkg, m, n.func.value) and not all(pkg.declared(m, a, n) for a in (n.args if n.func.attr == "update" else n.args[:1])):
                    hit("attribute names come from declarations", m, n)
            if isinstance(n, ast.Name) and n.id in ("__builtins__", "__loader__", "__spec__") and not pkg.bound(m, n):
                hit("no reflection into the interpreter", m, n)
            if isinstance(n, ast.Subscript) and reflective(pkg, m, n.value) and not pkg.declared(m, n.slice, n):
                hit("attribute names come from declarations", m, n)
    return out


def reflective(pkg, m, e):
    if isinstance(e, ast.Attribute) and e.attr == "__dict__" or (pkg.qual(m, e, e) or "") == "sys.modules":
        return True
    if isinstance(e, ast.Name):
        vs = next((v for f in pkg.scopes(m, e) if (v := pkg.local_values(m, f, e.id))), None) or [("value", v) for v in m.globals.get(e.id, [])]
        return any(k == "value" and isinstance(v, (ast.Call, ast.Attribute)) and reflective(pkg, m, v) for k, v in vs)
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("vars", "globals", "locals")


def run(repo, rules, samples, quiet, minimum):
    """Apply the rules; the built-in samples show on every run that each rule still fires, and stays silent."""
    pkg = Package(repo)
    errors = []
    for name, src in samples.items():
        if not rules(Package("", {"sample": src})):
            errors.append(f"built-in sample {name} is not reported")
    for name, src in quiet.items():
        r = rules(Package("", {"sample": src}))
        if r:
            errors.append(f"built-in sample {name} is reported: {r[0]['rule']}")
    for k, v in minimum.items():
        if pkg.stats[k] < v:
            errors.append(f"only {pkg.stats[k]} {k} were found, at least {v} are expected")
    return {"findings": rules(pkg), "errors": errors,
            "coverage": {"functions_scanned": pkg.stats["functions"], "obligations": pkg.stats["calls"] + pkg.stats["attributes"], **pkg.stats,
                         "samples_reported": len(samples), "samples_quiet": len(quiet), "files": [m.path for m in pkg.mods][:60]}}
