"""C30: parsing and reading end."""
import ast

from checks.c16 import _config as _lines
from checks.c19 import KEYS, _node
from checks.c20 import DOMAINS as LVM
from checks.c21 import _text
from checks.c23 import DOMAINS as LISTS
from checks.c23 import ID, _catalog, _none, _put
from checks.c25 import DOMAINS as VSS
from checks.c25 import M as V
from checks.c25 import _block
from checks.c28 import THIN, TREES, _level, _layout
from checks.common import PULL, RAID, units

TECHNIQUE = ("recurrence analysis: the end of every loop and recursion is a condition over carried values in the value graph; a recurrence whose deciding values come "
             "back to an earlier state, or that outlasts its input, does not end")
EXPLAIN = ("For every loop with a condition and for recursive functions, the slice of carried values that the exits depend on is taken from the value graph. "
           "Streams do not change while they are read and end at their size, so that a slice that comes back to an earlier value shows an endless loop. The metadata refers back to itself in "
           "many of the valued worlds, and the bound on passes is larger than the number of bytes read or of records present.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.dm.btree import BTree
from dissect.volume.dm.thin import ThinPool
from dissect.volume.lvm.physical import LVM2Device, parse_metadata
from dissect.volume.vinum.config import parse_vinum_config
from dissect.volume.vss import VSS, BlockList, Catalog, RangeList, Store, StoreBitmap, StoreStream
from dissect.volume.disk.schemes import MBR


def code_boot(fh: BinaryIO, sector_size: int):
    fh.seek(0)
    return [(p.number, p.offset) for p in MBR(fh, sector_size).partitions]


def code_tree(fh: BinaryIO, root: int, size: int, key: int):
    return BTree(fh, root, size).lookup(key)


def code_high(fh: BinaryIO, root: int, size: int, key: int):
    return BTree(fh, root, size).lookup(key, True)


def code_paths(fh: BinaryIO, root: int, size: int, key: int, key2: int):
    return BTree(fh, root, size).lookup([key, key2])


def code_catalog(vss: VSS, fh: BinaryIO, offset: int):
    vss.fh = fh
    return [e.entry_type for e in Catalog(vss, offset).entries]


def code_ranges(store: Store, fh: BinaryIO, offset: int):
    store.fh = fh
    return [e.store_offset for e in RangeList(store, offset).entries]


def code_bitmap(store: Store, fh: BinaryIO, offset: int, block: int):
    store.fh = fh
    return StoreBitmap(store, offset).in_use(block)


def code_blocks(store: Store, fh: BinaryIO, offset: int):
    store.fh = fh
    return sorted(BlockList(store, offset).map.map)


def code_snapshot(store: Store, block: int, n: int, extra: int):
    return pull(StoreStream(store), block * 16384, n * 16384 + extra)


def code_array(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    return pull(VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open(), offset, length)


def code_thin(meta: BinaryIO, data: BinaryIO, ident: int, block: int, count: int, extra: int):
    pool = ThinPool(meta, data)
    n = pool.metadata.data_block_size * 512
    return pull(pool.open(ident), block * n, count * n + extra)


def code_sectors(fh: BinaryIO, sector: int, count: int):
    return LVM2Device(fh).read_sectors(sector, count)


def code_config(when: int, config: bytes):
    c = parse_vinum_config(when, config)
    return (len(c["volumes"]), len(c["plexes"]), len(c["sds"]))


def code_text(text: str):
    return sorted(parse_metadata(text))
''' + PULL


def _boot(rng, w):
    """Up to three tables, each linked to any of them."""
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))
    ss = w.sym("sector_size", ("int",))

    def put(at, v, n):
        for i, x in enumerate(v.to_bytes(n, "little")):
            w.mem[(h.key, at + i)] = x

    put(510, 0xAA55, 2)
    for i in (*range(3, 40), *range(160, 180)):
        put(i, 0, 1)
    first = rng.randrange(1, 60)
    lbas = [first + x for x in (0, *rng.sample(range(1, 60), 2))][: rng.choice((1, 1, 2, 2, 3))]
    for n, at in enumerate([0] + [x * ss for x in lbas]):
        links = rng.sample(range(4), rng.choice((1, 1, 1, 2)) if rng.random() < 0.85 or n == 0 else 0)
        for i in range(4):
            to = first if n == 0 else rng.choice(lbas) - first
            put(at + 446 + 16 * i + 4, rng.choice((5, 15, 0x85)) if i in links else rng.choice((0, 0, 7, 0x83)), 1)
            put(at + 446 + 16 * i + 8, to, 4)
    return h


def _tree(rng, w):
    """A few nodes, the inner ones pointing anywhere among them."""
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))
    size = w.sym("size", ("int",))
    blocks = rng.sample(range(1, 60), rng.choice((1, 2, 2, 3, 4)))
    for b in blocks:
        keys = sorted(rng.sample(KEYS, rng.choice((0, 1, 1, 2, 3, 5))))
        if rng.random() < 0.5 and 0 not in keys:
            keys = [0, *keys]
        flags = rng.choice((1, 1, 1, 1, 2, 2, 0))
        _node(w, h, b * size * 512, flags, keys, [rng.choice(blocks) for _ in keys], 8, max(len(keys), rng.choice((1, 8))))
    w.vals[("sym", "root")] = blocks[0]
    return h


def _root(rng, w):
    w.sym("fh", ("stream",))
    return w.vals[("sym", "root")]


def _chain(record, fill):
    """Blocks that follow each other, the last of them often followed by an earlier one."""
    def make(rng, w):
        from vfa.evalr import HVal
        places = (0x8000, 0x20000, 0x14000)[: rng.choice((1, 2, 2, 3))]
        for i, at in enumerate(places):
            _put(w, at, ID)
            _put(w, at + 20, record, 4)
            _put(w, at + 40, places[i + 1] if i + 1 < len(places) else rng.choice((0, *places)))
            fill(rng, w, at + 128, i, len(places))
        return HVal(("sym", "fh"))
    return make


def _few(rng, w, at, i, n):
    for j in range(rng.choice((0, 1, 2))):
        _put(w, at, rng.randrange(1, 9) * 16384)
        _put(w, at + 8, (100 + i * 10 + j) * 16384)
        _put(w, at + 16, rng.randrange(1, 99) * 16384)
        _put(w, at + 24, rng.choice((0, 0, 2)), 4)
        at += 32
    _put(w, at, bytes(32))


def _noise(rng, w):
    """A configuration with stray characters, cut off at times."""
    v = bytearray(_lines(rng, w))
    for _ in range(rng.choice((0, 1, 2, 4))):
        v.insert(rng.randrange(len(v) + 1), rng.choice(b"\\\\\\\"'#\n\t \0=;,%$@[]{}()*+-/0a\x7f\x80\xff"))
    return bytes(v[: rng.randrange(len(v) + 1)] if rng.random() < 0.2 else v)


def _broken(rng, w):
    """Metadata text with stray characters, often cut off."""
    v = list(_text(rng, w))
    for _ in range(rng.choice((0, 0, 1, 2))):
        v.insert(rng.randrange(len(v) + 1), rng.choice('[]{}"#=,\\\n'))
    return "".join(v[: rng.randrange(len(v) + 1)] if rng.random() < 0.5 else v)


BIG = {"@ssize": lambda rng: 1 << 60}
TREE = BIG | {"fh": _tree, "size": [1, 1, 8], "root": _root, "key": list(KEYS), "key2": list(KEYS)}
ARRAY = RAID | {"level": _level, "layout": lambda rng, w: _layout(rng, w) if rng.random() < 0.9 else rng.randrange(30),
                "length": units(0, 5), ".size": lambda rng, w: 0 if rng.random() < 0.1 else units(1, 6)(rng, w)}
END = {"ends": True, "maxit": 600}

PAIRS = {
    "boot": END | {"samples": 200, "domains": BIG | {"fh": _boot, "sector_size": [512, 4096]}},
    "tree": END | {"samples": 200, "domains": TREE},
    "high": END | {"samples": 200, "domains": TREE},
    "paths": END | {"samples": 200, "domains": TREE},
    "catalog": END | {"samples": 60, "cut": [V + "Store"], "domains": LISTS | BIG | {"fh": _chain(2, _catalog)}},
    "ranges": END | {"samples": 60, "domains": LISTS | BIG | {"fh": _chain(5, _none)}},
    "bitmap": END | {"samples": 60, "domains": LISTS | BIG | {"fh": _chain(6, _none)}},
    "blocks": END | {"samples": 60, "heap": True, "hobj": [V + "BlockDescriptor"], "domains": LISTS | BIG | {"fh": _chain(3, _few)}},
    "snapshot": END | {"samples": 60, "opaque": [V + "Store.read_block"], "domains": VSS | {"read_block()": _block, "block": [0, 1, 7], "n": [0, 1, 2, 4], "extra": [0, 0, 1, 512, 16383]}},
    "array": END | {"samples": 400, "domains": ARRAY},
    "thin": END | {"samples": 60, "cut": [TREES], "opaque": [TREES + ".lookup"], "domains": THIN},
    "sectors": END | {"samples": 60, "domains": LVM},
    "config": END | {"samples": 120, "domains": {"config": _noise, "when": [5, 6]}},
    "text": END | {"samples": 120, "heap": True, "domains": {"text": _broken}},
}


def loops(repo):
    """The loops with a condition and the functions that call themselves, by name, in the package."""
    from vfa.effects import Package
    pkg = Package(repo)
    out = []
    for m in pkg.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.While):
                out.append(pkg.where(m, n))
    return out


def rules(repo, tier):
    from vfa.effects import Package
    pkg = Package(repo)
    n = sum(isinstance(x, ast.While) for m in pkg.mods for x in ast.walk(m.tree))
    return {"findings": [], "errors": [], "undecided": [], "known": [], "coverage": {"loops_with_a_condition": n}}
