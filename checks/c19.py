"""C19: lookups in the metadata tree."""
EXPLAIN = ("The value graph of a tree lookup is compared with a specification that finds, node by node, the greatest key not above the wanted one "
           "by a plain scan, follows inner entries and continues each level of a key path in the tree that the level before names.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.dm.btree import BTree
from dissect.volume.exceptions import DMError
from vfa import u, raw


def find(fh, root, size, key):
    block = root
    seen = []
    while True:
        if block in seen:
            raise DMError()
        seen.append(block)
        at = block * size * 512
        count = u(fh, at + 16, 4)
        room = u(fh, at + 20, 4)
        width = u(fh, at + 24, 4)
        flags = u(fh, at + 4, 4)
        best = -1
        for i in range(count):
            if u(fh, at + 32 + i * 8, 8) <= key:
                best = i
        if best < 0:
            return None
        value = raw(fh, at + 32 + room * 8 + best * width, width)
        if flags & 1:
            block = int.from_bytes(value, "little")
        elif flags & 2:
            if u(fh, at + 32 + best * 8, 8) != key:
                return None
            return value
        else:
            raise DMError()


def code_single(fh: BinaryIO, root: int, size: int, key: int):
    v = BTree(fh, root, size).lookup(key)
    if v is None:
        return None
    return bytes(v)


def ref_single(fh: BinaryIO, root: int, size: int, key: int):
    return find(fh, root, size, key)


def code_path(fh: BinaryIO, root: int, size: int, key: int, key2: int):
    v = BTree(fh, root, size).lookup([key, key2])
    if v is None:
        return None
    return bytes(v)


def ref_path(fh: BinaryIO, root: int, size: int, key: int, key2: int):
    v = find(fh, root, size, key)
    if v is None:
        return None
    return find(fh, int.from_bytes(v, "little"), size, key2)
'''

KEYS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 255, 256, 1 << 32, (1 << 64) - 1)


def _node(w, h, at, flags, keys, values, width, room):
    def put(off, v, n):
        for i, x in enumerate(v.to_bytes(n, "little") if isinstance(v, int) else v):
            w.mem[(h.key, at + off + i)] = x

    put(0, 0x11223344, 4)
    put(4, flags, 4)
    put(8, 99, 8)
    put(16, len(keys), 4)
    put(20, room, 4)
    put(24, width, 4)
    put(28, 0, 4)
    for i in range(room):
        # slots past the last entry keep old content
        put(32 + i * 8, keys[i] if i < len(keys) else 3, 8)
        put(32 + room * 8 + i * width, values[i] if i < len(values) else bytes([0xEE]) * width, width)


def _tree(rng, w, h, size, free, keys, leaf_values, width, depth):
    """Build a tree over sorted keys, return its root block."""
    block = free.pop()
    at = block * size * 512
    if depth == 0 or len(keys) < 2:
        flags = 2 if rng.random() < 0.97 else rng.choice((0, 4))
        _node(w, h, at, flags | (rng.choice((0, 4)) if rng.random() < 0.1 else 0), keys, leaf_values, width, rng.choice((len(keys), len(keys) + 1, max(len(keys), 8))))
        return block
    cuts = sorted(rng.sample(range(1, len(keys)), min(len(keys) - 1, rng.choice((1, 2, 3)))))
    bounds = [0, *cuts, len(keys)]
    children = []
    for a, b in zip(bounds, bounds[1:]):
        if rng.random() < 0.03:
            children.append(block)
        else:
            children.append(_tree(rng, w, h, size, free, keys[a:b], leaf_values[a:b], width, depth - 1))
    ikeys = [keys[a] for a in bounds[:-1]]
    if rng.random() < 0.4 and ikeys[0] > 0:
        ikeys[0] -= 1
    _node(w, h, at, 1, ikeys, children, 8, rng.choice((len(ikeys), len(ikeys) + 1, max(len(ikeys), 8))))
    return block


def _fh(rng, w):
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))
    size = w.sym("size", ("int",))
    free = rng.sample(range(1, 400), 120)

    def one(width, values):
        n = rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 13))
        keys = sorted(rng.sample(KEYS, n))
        return _tree(rng, w, h, size, free, keys, [values() for _ in keys], width, rng.choice((0, 0, 1, 2))), keys

    width = rng.choice((4, 8, 8, 24))
    subs = [one(width, lambda: bytes(rng.randrange(256) for _ in range(width))) for _ in range(3)]
    if w.paths:
        root, keys = one(8, lambda: rng.choice(subs)[0])
    else:
        root, keys = subs[0]
    w.vals[("sym", "root")] = root
    w.vals[("sym", "key")] = rng.choice(keys) if keys and rng.random() < 0.75 else rng.choice(KEYS)
    w.vals[("sym", "key2")] = rng.choice(KEYS)
    return h


def _single(rng, w):
    w.paths = False
    return _fh(rng, w)


def _path(rng, w):
    w.paths = True
    return _fh(rng, w)


def _of(name):
    def f(rng, w):
        w.sym("fh", ("stream",))
        return w.vals[("sym", name)]
    return f


BASE = {"size": [1, 1, 8], "root": _of("root"), "key": _of("key"), "key2": _of("key2"), "@ssize": lambda rng: 1 << 60}
PAIRS = {"single": {"samples": 500, "domains": BASE | {"fh": _single}}, "path": {"samples": 500, "domains": BASE | {"fh": _path}}}
