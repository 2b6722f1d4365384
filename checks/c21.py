"""C21: LVM metadata text."""
EXPLAIN = ("The value graph of the metadata parser, with dictionaries as addresses of an explicit heap so that the nesting of sections is exact, "
           "is compared with a specification that keeps a stack of open sections.")

HARNESS = r'''
from __future__ import annotations
import ast
import re
from dissect.volume.lvm.physical import parse_metadata
from vfa import deep


def code_tree(text: str):
    return deep(parse_metadata(text))


def ref_tree(text: str):
    root = {}
    stack = [root]
    plain = re.sub(r'#.*|("(?:[^"\\\n]|\\.)*")', r"\1", text)
    lines = [x.strip() for x in plain.split("\n")]
    lines = [x for x in lines if x != ""]
    i = 0
    while i < len(lines):
        line = lines[i]
        i += 1
        if line.endswith("{"):
            d = {}
            stack[-1][line[:-1].strip()] = d
            stack.append(d)
        elif line.endswith("}"):
            if len(stack) == 1:
                raise KeyError()
            stack.pop()
        else:
            key, value = line.split("=", 1)
            value = value.strip()
            if value[0] == "[":
                while not value.endswith("]") and i < len(lines):
                    value += lines[i]
                    i += 1
            stack[-1][key.strip()] = ast.literal_eval(value)
    root["_raw"] = text
    return deep(root)
'''


def _string(rng):
    return '"%s"' % rng.choice(("READ", "VISIBLE", "a # b", "x = y", "{", "}", "]", "[", "abc-def", "", 'say \\"#hi\\"', "back\\\\", "#", "/dev/sda1 {"))


def _comment(rng):
    return rng.choice(("", "", "", "", "\t# Hint only", " # 4 Megabytes", ' # the "x"', "#", " # a { b", " # }", " # ]", ' # one " quote', " # k = 1"))


def _value(rng):
    """The value as one or more lines."""
    r = rng.random()
    if r < 0.35:
        return [str(rng.choice((0, 1, 8192, 10**10, -1)))]
    if r < 0.6:
        return [_string(rng)]
    items = [_string(rng) if rng.random() < 0.6 else str(rng.randrange(99)) for _ in range(rng.choice((0, 1, 2, 3, 4)))]
    if r < 0.8:
        return ["[" + rng.choice((", ", ",")).join(items) + "]"]
    out = ["["]
    for x in items:
        if rng.random() < 0.6:
            out.append(x + ",")
        else:
            out[-1] += x + ", "
    if rng.random() < 0.5:
        out.append("]")
    else:
        out[-1] += "]"
    return out


def _body(rng, depth, room):
    out = []
    for _ in range(rng.choice((1, 2, 3, 4))):
        if len(out) > room:
            break
        pad = rng.choice(("", "\t" * depth, "  "))
        r = rng.random()
        if r < 0.15:
            out.append(rng.choice(("", pad, pad + "# comment", "#", pad + "#" + ' with "quotes"', "#\t", "# a = 1", "# x {", "# }")))
        elif r < 0.45 and depth < 4:
            out.append(pad + rng.choice(("vg0", "physical_volumes", "pv0", "segment1", "lv-a")) + rng.choice((" {", "{", "\t{ ")) + _comment(rng))
            out += _body(rng, depth + 1, room - len(out) - 2)
            out.append(pad + rng.choice(("}", "}", "} ", "\t}")) + _comment(rng))
        else:
            v = _value(rng)
            v[0] = rng.choice(("seqno", "id", "status", "flags", "pe_start", "stripes")) + rng.choice((" = ", "=", "\t= ")) + v[0]
            out += [pad + x + _comment(rng) for x in v]
    return out


def _text(rng, w):
    out = _body(rng, 0, 22)[:40]
    if rng.random() < 0.08:
        out.insert(rng.randrange(len(out) + 1), rng.choice(("}", "x", "= ", "k = ", "a {", "k = [1,", "k = oops")))
    return "\n".join(out) + rng.choice(("", "\n", "\n\n"))


DOMAINS = {"text": _text}
PAIRS = {"tree": {"samples": 1200, "heap": True}}
