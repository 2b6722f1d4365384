"""Parser for the C-like structure definitions that are handed to cstruct().

Produces packed layouts; array dimensions are kept as Python expression trees over earlier fields and
constants, so that dynamically sized structures can be resolved by the value-flow analysis.
"""
from __future__ import annotations

import ast
import re

BASE = {
    "uint8": (1, False, "int"), "int8": (1, True, "int"), "uint16": (2, False, "int"), "int16": (2, True, "int"),
    "uint32": (4, False, "int"), "int32": (4, True, "int"), "uint64": (8, False, "int"), "int64": (8, True, "int"),
    "uint24": (3, False, "int"), "int24": (3, True, "int"), "uint48": (6, False, "int"), "int48": (6, True, "int"),
    "uint128": (16, False, "int"), "int128": (16, True, "int"),
    "char": (1, False, "char"), "wchar": (2, False, "wchar"), "float": (4, True, "float"), "double": (8, True, "float"),
    "void": (0, False, "void"),
}
ALIAS = {
    "BYTE": "uint8", "UCHAR": "uint8", "uchar": "uint8", "u8": "uint8", "__u8": "uint8", "uint8_t": "uint8", "u_char": "uint8",
    "unsigned char": "uint8", "signed char": "int8", "CHAR": "char", "short": "int16", "unsigned short": "uint16",
    "USHORT": "uint16", "SHORT": "int16", "ushort": "uint16", "WORD": "uint16", "u16": "uint16", "__u16": "uint16",
    "uint16_t": "uint16", "int": "int32", "unsigned int": "uint32", "unsigned": "uint32", "uint": "uint32",
    "long": "int32", "unsigned long": "uint32", "ULONG": "uint32", "LONG": "int32", "DWORD": "uint32",
    "u32": "uint32", "__u32": "uint32", "uint32_t": "uint32", "__le32": "uint32", "long long": "int64",
    "unsigned long long": "uint64", "ULONGLONG": "uint64", "QWORD": "uint64", "u64": "uint64", "__u64": "uint64",
    "uint64_t": "uint64", "__le64": "uint64", "__le16": "uint16", "int8_t": "int8", "int16_t": "int16", "int32_t": "int32",
    "int64_t": "int64", "wchar_t": "wchar", "WCHAR": "wchar", "ulong": "uint32", "s8": "int8", "s16": "int16",
    "s32": "int32", "s64": "int64", "__s32": "int32", "__s64": "int64", "LONGLONG": "int64", "OWORD": "uint128",
}


class CDefError(Exception):
    pass


class CType:
    """scalar / array / struct / union / enum."""

    def __init__(self, kind, name, ns, **kw):
        self.kind = kind
        self.name = name
        self.ns = ns
        self.size = kw.get("size")          # scalars and enums
        self.signed = kw.get("signed", False)
        self.fields = kw.get("fields", [])  # [(name or None, ctype, dims)] dims: list of expr ast or None
        self.members = kw.get("members", {})
        self.elem = kw.get("elem")
        self.dim = kw.get("dim")

    def __repr__(self):
        return f"<ctype {self.name}>"

    def natural(self):
        if self.kind in ("struct", "union"):
            return max([t.natural() for _, t, _ in self.fields], default=1)
        return self.size or 1

    def fixed_size(self):
        """Size in bytes, or None when it depends on field values."""
        if self.kind in ("int", "char", "wchar", "float", "void", "enum"):
            return self.size
        total = 0
        for _, ct, dims in self.fields:
            s = ct.fixed_size()
            if s is None:
                return None
            for d in dims:
                n = self.ns.const_dim(d, self)
                if n is None:
                    return None
                s *= n
            total = max(total, s) if self.kind == "union" else total + s
        return total


class Namespace:
    def __init__(self, endian="<", name="c"):
        self.endian = endian
        self.name = name
        self.types: dict[str, CType] = {}
        self.consts: dict[str, object] = {}

    # -- lookup
    def resolve(self, name: str) -> CType | None:
        name = " ".join(name.split())
        seen = set()
        while name in ALIAS and name not in self.types and name not in seen:
            seen.add(name)
            name = ALIAS[name]
        if name in self.types:
            return self.types[name]
        if name in BASE:
            size, signed, kind = BASE[name]
            t = CType(kind, name, self, size=size, signed=signed)
            self.types[name] = t
            return t
        return None

    def expr(self, text: str) -> ast.expr:
        text = text.strip()
        text = re.sub(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]+\b", r"\1", text)
        text = re.sub(r"\b0+(\d)", r"\1", text) if re.fullmatch(r"0+\d+", text) else text
        text = text.replace("/", "//").replace("!", " not ")
        return ast.parse(text.strip() or "0", mode="eval").body

    def const_dim(self, e, owner=None):
        if e is None:
            return None
        fields = {f[0] for f in owner.fields} if owner is not None else set()
        try:
            return self._eval(e, fields)
        except KeyError:
            return None

    def _eval(self, e, fields=()):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in fields:
                raise KeyError(e.id)
            if e.id in self.consts:
                return self.consts[e.id]
            raise KeyError(e.id)
        if isinstance(e, ast.Attribute):
            ct = self.types.get(e.value.id)
            if ct and e.attr in ct.members:
                return ct.members[e.attr]
            raise KeyError(e.attr)
        if isinstance(e, ast.UnaryOp):
            v = self._eval(e.operand, fields)
            return {ast.USub: lambda: -v, ast.Invert: lambda: ~v, ast.UAdd: lambda: v, ast.Not: lambda: not v}[type(e.op)]()
        if isinstance(e, ast.BinOp):
            a, b = self._eval(e.left, fields), self._eval(e.right, fields)
            return {
                ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b,
                ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitAnd: lambda: a & b,
                ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.Mod: lambda: a % b,
            }[type(e.op)]()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "sizeof":
            a = e.args[0]
            ct = self.resolve(a.id)
            return ct.fixed_size()
        raise KeyError(ast.dump(e))

    # -- parsing
    def load(self, text: str, align=False):
        self.align = align
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
        text = re.sub(r"//[^\n]*", " ", text)
        lines = []
        for line in text.split("\n"):
            s = line.strip()
            m = re.match(r"#\s*define\s+(\w+)\s*(.*)$", s)
            if m:
                self._define(m.group(1), m.group(2).strip())
                continue
            if s.startswith("#"):
                continue
            lines.append(line)
        self.toks = re.findall(r"0[xX][0-9a-fA-F]+[uUlL]*|[A-Za-z_]\w*|\d+\w*|<<|>>|\S", "\n".join(lines))
        self.i = 0
        while self.i < len(self.toks):
            self._decl()
        return self

    def _define(self, name, val):
        if not val:
            return
        if len(val) > 1 and val[0] in "\"'" and val[-1] == val[0]:
            self.consts[name] = val[1:-1]
            return
        if val[:2] in ('b"', "b'"):
            self.consts[name] = ast.literal_eval(val)
            return
        try:
            self.consts[name] = self._eval(self.expr(val))
        except (KeyError, SyntaxError):
            self.consts[name] = val

    def _peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else None

    def _eat(self, want=None):
        t = self._peek()
        if t is None or (want is not None and t != want):
            raise CDefError(f"expected {want!r}, got {t!r}")
        self.i += 1
        return t

    def _decl(self):
        t = self._peek()
        if t == ";":
            self._eat()
        elif t == "typedef":
            self._eat()
            ct = self._type()
            while self._peek() != ";":
                if self._peek() == ",":
                    self._eat()
                    continue
                if self._peek() == "*":
                    self._eat()
                    continue
                name = self._eat()
                dims = self._dims()
                if dims:
                    ct = CType("struct", name, self, fields=[("_", ct, dims)])
                self.types[name] = ct
                if ct.name is None:
                    ct.name = name
            self._eat(";")
        elif t in ("struct", "union", "enum", "flag"):
            ct = self._type()
            while self._peek() not in (";", None):
                if self._peek() in (",", "*"):
                    self._eat()
                    continue
                name = self._eat()
                self._dims()
                self.types[name] = ct
            if self._peek() == ";":
                self._eat()
        else:
            raise CDefError(f"unexpected token {t!r}")

    def _type(self) -> CType:
        t = self._eat()
        if t in ("struct", "union"):
            name = None
            if self._peek() != "{":
                name = self._eat()
            if self._peek() != "{":
                ct = self.resolve(name)
                if ct is None:
                    raise CDefError(f"unknown struct {name}")
                return ct
            self._eat("{")
            ct = CType(t, name, self, fields=[])
            if name:
                self.types[name] = ct
            while self._peek() != "}":
                self._field(ct)
            self._eat("}")
            if self.align:
                self._pad(ct)
            return ct
        if t in ("enum", "flag"):
            name = None
            if self._peek() not in ("{", ":"):
                name = self._eat()
            base = self.resolve("uint32")
            if self._peek() == ":":
                self._eat()
                words = []
                while self._peek() != "{":
                    words.append(self._eat())
                base = self.resolve(" ".join(words))
            if self._peek() != "{":
                return self.resolve(name)
            self._eat("{")
            members, nxt = {}, (0 if t == "enum" else 1)
            while self._peek() != "}":
                m = self._eat()
                if self._peek() == "=":
                    self._eat()
                    ex = []
                    while self._peek() not in (",", "}"):
                        ex.append(self._eat())
                    e = self.expr(" ".join(ex))
                    saved = dict(self.consts)
                    self.consts.update(members)
                    val = self._eval(e)
                    self.consts = saved
                else:
                    val = nxt
                members[m] = val
                nxt = val + 1 if t == "enum" else (1 << val.bit_length() if val else 1)
                if self._peek() == ",":
                    self._eat()
            self._eat("}")
            ct = CType("enum", name, self, size=base.size, signed=base.signed, members=members)
            if name:
                self.types[name] = ct
            else:
                self.consts.update(members)
            return ct
        # scalar type, possibly of several words
        words = [t]
        if t in ("unsigned", "signed", "long", "short"):
            while self._peek() in ("unsigned", "signed", "long", "short", "int", "char"):
                words.append(self._eat())
        ct = self.resolve(" ".join(words))
        if ct is None:
            raise CDefError(f"unknown type {' '.join(words)}")
        return ct

    def _pad(self, ct):
        """Natural alignment, made explicit as padding fields."""
        out, at = [], 0
        for i, (name, t, dims) in enumerate(ct.fields):
            if ct.kind == "struct" and at is not None and -at % t.natural():
                out.append((f"_align{i}", self.resolve("char"), [ast.Constant(-at % t.natural())]))
                at += -at % t.natural()
            out.append((name, t, dims))
            s = t.fixed_size()
            for d in dims:
                n = self.const_dim(d, ct)
                s = None if s is None or n is None else s * n
            at = None if s is None or at is None else at + s
        if ct.kind == "struct" and at and -at % ct.natural():
            out.append(("_align", self.resolve("char"), [ast.Constant(-at % ct.natural())]))
        ct.fields[:] = out

    def _dims(self):
        dims = []
        while self._peek() == "[":
            self._eat()
            ex = []
            depth = 0
            while not (self._peek() == "]" and depth == 0):
                tok = self._eat()
                depth += (tok == "[") - (tok == "]")
                ex.append(tok)
            self._eat("]")
            dims.append(self.expr(" ".join(ex)) if ex else None)
        return dims

    def _field(self, owner):
        ct = self._type()
        if self._peek() == ";":
            self._eat()
            owner.fields.append((None, ct, []))
            return
        while True:
            while self._peek() == "*":
                raise CDefError("pointer fields are not modelled")
            name = self._eat()
            dims = self._dims()
            if self._peek() == ":":
                raise CDefError("bit fields are not modelled")
            owner.fields.append((name, ct, dims))
            if self._peek() == ",":
                self._eat()
                continue
            break
        self._eat(";")
