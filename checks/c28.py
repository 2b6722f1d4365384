"""C28: reads depend on their parameters alone."""
from checks.c12 import _ssize as _md_size
from checks.c14 import _fh as _ddf_fh
from checks.c19 import BASE as TREE
from checks.c19 import KEYS
from checks.c19 import _fh as _tree_fh
from checks.c20 import DOMAINS as LVM
from checks.c23 import DOMAINS as LISTS
from checks.c23 import _catalog, _fh_chain, _none, _ranges, _volume
from checks.c25 import DOMAINS as VSS
from checks.c25 import M as V
from checks.c25 import _block
from checks.c25 import _fh as _vss_fh
from checks.common import PULL, RAID, units

TECHNIQUE = ("self-composition: the value graph of a read after an arbitrary earlier read and arbitrary movements of the shared streams is compared with the "
             "value graph of the same read on its own; plus rules for cached functions, shared mutable state and suspended generators")
EXPLAIN = ("For each kind of read, the value graph after a history (an earlier read with other parameters, by this or a sibling object, and streams moved to arbitrary "
           "positions) is compared with that of a first read. No specification of the content is involved. Cached functions, run-time shared state and "
           "reads after a yield are the subject of rules over the syntax.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.dm.btree import BTree
from dissect.volume.dm.thin import Metadata, ThinDevice, ThinPool
from dissect.volume.lvm.physical import LVM2Device
from dissect.volume.md.md import MDPhysicalDisk
from dissect.volume.ddf.ddf import DDFPhysicalDisk
from dissect.volume.vinum.vinum import VinumPhysicalDisk
from dissect.volume.vss import VSS, BlockList, Catalog, RangeList, Store, StoreBitmap, StoreStream, c_vss
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR
from vfa import u, raw, runs


def code_raid(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int,
              offset2: int, length2: int, p: int):
    s = VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open()
    try:
        pull(s, offset2, length2)
    except Exception:
        pass
    for k in disk_map:
        disk_map[k][1].fh.seek(p)
    return pull(s, offset, length)


def ref_raid(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int,
             offset2: int, length2: int, p: int):
    s = VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open()
    return pull(s, offset, length)


def code_siblings(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int,
                  offset2: int, length2: int, p: int):
    t = VirtualDisk("n", "u", size, level, layout, stripe_size * 2, num_disks, disk_map).open()
    s = VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open()
    try:
        pull(t, offset2, length2)
    except Exception:
        pass
    return pull(s, offset, length)


def ref_siblings(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int,
                 offset2: int, length2: int, p: int):
    s = VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open()
    return pull(s, offset, length)


def code_tree(fh: BinaryIO, root: int, size: int, key: int, key2: int, p: int):
    t = BTree(fh, root, size)
    try:
        t.lookup(key2)
    except Exception:
        pass
    fh.seek(p)
    return t.lookup(key)


def ref_tree(fh: BinaryIO, root: int, size: int, key: int, key2: int, p: int):
    return BTree(fh, root, size).lookup(key)


def code_trees(fh: BinaryIO, root: int, size: int, key: int, key2: int, p: int):
    t = BTree(fh, root, size)
    o = BTree(fh, key2, size)
    try:
        o.lookup(key)
    except Exception:
        pass
    return t.lookup(key)


def ref_trees(fh: BinaryIO, root: int, size: int, key: int, key2: int, p: int):
    return BTree(fh, root, size).lookup(key)


def code_paths(fh: BinaryIO, root: int, size: int, key: int, key2: int, key3: int, p: int):
    t = BTree(fh, root, size)
    try:
        t.lookup([key3, key2])
    except Exception:
        pass
    fh.seek(p)
    return t.lookup([key, key2])


def ref_paths(fh: BinaryIO, root: int, size: int, key: int, key2: int, key3: int, p: int):
    return BTree(fh, root, size).lookup([key, key2])


def code_thin(meta: BinaryIO, data: BinaryIO, ident: int, ident2: int, block: int, block2: int, count: int, count2: int, extra: int, p: int):
    pool = ThinPool(meta, data)
    d = pool.open(ident)
    n = pool.metadata.data_block_size * 512
    try:
        pull(d, block2 * n, count2 * n)
    except Exception:
        pass
    data.seek(p)
    meta.seek(p)
    return pull(d, block * n, count * n + extra)


def ref_thin(meta: BinaryIO, data: BinaryIO, ident: int, ident2: int, block: int, block2: int, count: int, count2: int, extra: int, p: int):
    pool = ThinPool(meta, data)
    n = pool.metadata.data_block_size * 512
    return pull(pool.open(ident), block * n, count * n + extra)


def code_devices(meta: BinaryIO, data: BinaryIO, ident: int, ident2: int, block: int, block2: int, count: int, count2: int, extra: int, p: int):
    pool = ThinPool(meta, data)
    d = pool.open(ident)
    n = pool.metadata.data_block_size * 512
    try:
        pull(pool.open(ident2), block2 * n, count2 * n)
    except Exception:
        pass
    return pull(d, block * n, count * n + extra)


def ref_devices(meta: BinaryIO, data: BinaryIO, ident: int, ident2: int, block: int, block2: int, count: int, count2: int, extra: int, p: int):
    pool = ThinPool(meta, data)
    n = pool.metadata.data_block_size * 512
    return pull(pool.open(ident), block * n, count * n + extra)


def code_pool(fh: BinaryIO, p: int):
    fh.seek(p)
    m = Metadata(fh)
    return (m.data_block_size, m.metadata_block_size, m.data_mapping.root, m.device_details.root)


def ref_pool(fh: BinaryIO, p: int):
    m = Metadata(fh)
    return (m.data_block_size, m.metadata_block_size, m.data_mapping.root, m.device_details.root)


def code_lvm(fh: BinaryIO, sector: int, count: int, sector2: int, count2: int, p: int):
    fh.seek(p)
    d = LVM2Device(fh)
    try:
        d.read_sectors(sector2, count2)
    except Exception:
        pass
    fh.seek(p)
    before = d.metadata
    fh.seek(p)
    return (before, d.read_sectors(sector, count), d.metadata, runs(d.open()))


def ref_lvm(fh: BinaryIO, sector: int, count: int, sector2: int, count2: int, p: int):
    d = LVM2Device(fh)
    text = d.metadata
    return (text, d.read_sectors(sector, count), text, runs(d.open()))


def code_md(fh: BinaryIO, p: int):
    fh.seek(p)
    d = MDPhysicalDisk(fh)
    return (d.set_uuid, d.set_name, d.events, d.chunk_size, d.data_offset, d.data_size, d.dev_number, d.raid_disk)


def ref_md(fh: BinaryIO, p: int):
    d = MDPhysicalDisk(fh)
    return (d.set_uuid, d.set_name, d.events, d.chunk_size, d.data_offset, d.data_size, d.dev_number, d.raid_disk)


def code_ddf(fh: BinaryIO, sector_size: int, p: int):
    fh.seek(p)
    d = DDFPhysicalDisk(fh, sector_size)
    return (d.anchor.DDF_Header_GUID, d.controller_data.guid, d.controller_data.type, [r.guid for r in d.physical_disk_records],
            [r.guid for r in d.virtual_disk_records], [r.guid for r in d.virtual_disk_configuration_records])


def ref_ddf(fh: BinaryIO, sector_size: int, p: int):
    d = DDFPhysicalDisk(fh, sector_size)
    return (d.anchor.DDF_Header_GUID, d.controller_data.guid, d.controller_data.type, [r.guid for r in d.physical_disk_records],
            [r.guid for r in d.virtual_disk_records], [r.guid for r in d.virtual_disk_configuration_records])


def code_vinum(fh: BinaryIO, p: int):
    fh.seek(p)
    d = VinumPhysicalDisk(fh)
    fh.seek(p)
    a = d.config2
    fh.seek(p)
    return (a, d.config, d.config2, d.name, d.size, d.config_time)


def ref_vinum(fh: BinaryIO, p: int):
    d = VinumPhysicalDisk(fh)
    a = d.config
    b = d.config2
    return (b, a, b, d.name, d.size, d.config_time)


def make(fh, cat, at):
    return Store(cat, [c_vss.catalog_entry_2(raw(fh, at, 128)), c_vss.catalog_entry_3(raw(fh, at + 128, 128))])


def chain(fh, cat, later):
    cat.fh = fh
    s = make(fh, cat, 0)
    s.block_list, s.bitmap, s.previous_bitmap
    if later > 0:
        t = make(fh, cat, 256)
        t.block_list, t.bitmap, t.previous_bitmap
        s.next_store = t
        t.previous_store = s
    return s


def code_snapshot(fh: BinaryIO, cat: Catalog, later: int, block: int, block2: int, p: int):
    s = chain(fh, cat, later)
    try:
        s.read_block(block2)
    except Exception:
        pass
    fh.seek(p)
    return s.read_block(block)


def ref_snapshot(fh: BinaryIO, cat: Catalog, later: int, block: int, block2: int, p: int):
    return chain(fh, cat, later).read_block(block)


def code_stores(fh: BinaryIO, cat: Catalog, later: int, block: int, block2: int, p: int):
    s = chain(fh, cat, later)
    if s.next_store is not None:
        try:
            s.next_store.read_block(block2)
        except Exception:
            pass
    return s.read_block(block)


def ref_stores(fh: BinaryIO, cat: Catalog, later: int, block: int, block2: int, p: int):
    return chain(fh, cat, later).read_block(block)


def code_stream(store: Store, block: int, n: int, block2: int, n2: int):
    s = StoreStream(store)
    try:
        pull(s, block2 * 16384, n2 * 16384)
    except Exception:
        pass
    return pull(s, block * 16384, n * 16384)


def ref_stream(store: Store, block: int, n: int, block2: int, n2: int):
    return pull(StoreStream(store), block * 16384, n * 16384)


def code_ranges(store: Store, fh: BinaryIO, offset: int, p: int):
    store.fh = fh
    fh.seek(p)
    r = RangeList(store, offset)
    return [(e.store_offset, e.relative_offset, e.size) for e in r.entries]


def ref_ranges(store: Store, fh: BinaryIO, offset: int, p: int):
    store.fh = fh
    r = RangeList(store, offset)
    return [(e.store_offset, e.relative_offset, e.size) for e in r.entries]


def code_bitmap(store: Store, fh: BinaryIO, offset: int, block: int, p: int):
    store.fh = fh
    fh.seek(p)
    b = StoreBitmap(store, offset)
    b.in_use(0)
    fh.seek(p)
    return b.in_use(block)


def ref_bitmap(store: Store, fh: BinaryIO, offset: int, block: int, p: int):
    store.fh = fh
    return StoreBitmap(store, offset).in_use(block)


def code_catalog(vss: VSS, fh: BinaryIO, offset: int, p: int):
    vss.fh = fh
    fh.seek(p)
    c = Catalog(vss, offset)
    return ([e.entry_type for e in c.entries], c.stores)


def ref_catalog(vss: VSS, fh: BinaryIO, offset: int, p: int):
    vss.fh = fh
    c = Catalog(vss, offset)
    return ([e.entry_type for e in c.entries], c.stores)


def code_volume(fh: BinaryIO, p: int):
    fh.seek(p)
    v = VSS(fh)
    return (v.volume_identifier, v.store_volume_identifier, v.header.maximum_size)


def ref_volume(fh: BinaryIO, p: int):
    v = VSS(fh)
    return (v.volume_identifier, v.store_volume_identifier, v.header.maximum_size)
''' + PULL


def _level(rng, w):
    return w.keyed("lv").choice((0, 0, 4, 5, 5, 6, 6, 10, 10))


def _layout(rng, w):
    return rng.choice({0: [0], 4: [0], 5: range(6), 6: [0, 1, 2, 3, 8, 9, 10, 16, 17, 18, 19, 20], 10: [0x101, 0x102, 0x10102, 0x10201]}[_level(None, w)])


def _next(rng, w):
    """The earlier read often ends where, or starts where, the later one starts."""
    o = w.sym("offset", ("int",))
    return rng.choice((o, o, max(o - w.sym("length2", ("int",)), 0), units(0, 24)(rng, w)))


def _tree(rng, w):
    w.paths = False
    return _tree_fh(rng, w)


def _path(rng, w):
    w.paths = True
    return _tree_fh(rng, w)


def _small(rng, w):
    return rng.choice(KEYS)


def _same(name, others):
    def f(rng, w):
        return w.sym(name, ("int",)) if rng.random() < 0.4 else rng.choice(others)
    return f


def _prev(name, others):
    def f(rng, w):
        return max(w.sym(name, ("int",)) - rng.choice((0, 1, 1, 2)), 0) if rng.random() < 0.7 else rng.choice(others)
    return f


def _nd(rng, w):
    return w.keyed("nd").choice((3, 3, 4, 4, 5, 6))


def _map(rng, w):
    roles = list(range(_nd(None, w)))
    rng.shuffle(roles)
    ety = w.cur_ty[2][1][1]
    return {x: (rng.choice((0, 0, 4, 1024)), w.of_type(ety, ("disk", x))) for x in roles}


R = dict(RAID, num_disks=_nd, disk_map=_map, level=_level, layout=_layout, offset2=_next, length2=units(0, 5))
P = {"p": [0, 1, 512, 4096, 7680, 16384, 1 << 20]}
TREES = "dissect.volume.dm.btree.BTree"
BLOCKS = [0, 1, 2, 3, 7]
BIG = {"@ssize": lambda rng: 1 << 60}
DOMAINS = P


def _thin(rng, w):
    """Device details for one key; for a key path a packed block number, mostly of the next few blocks."""
    if rng.random() < 0.1:
        return None
    if isinstance(w.cur_key[2][1], tuple):
        return (rng.choice((0, 1, 2, 3, 4)) << 24 | rng.choice((0, 1, rng.randrange(1 << 24)))).to_bytes(8, "little")
    return bytes(rng.randrange(256) for _ in range(24))


def _meta(rng, w):
    from vfa.evalr import HVal
    h = HVal(("sym", "meta"))
    for at, v, n in ((32, 27022010, 8), (336, rng.choice((1, 2, 4)), 4), (340, 8, 4)):
        for i, x in enumerate(v.to_bytes(n, "little")):
            w.mem[(h.key, at + i)] = x
    return h


THIN = P | BIG | {"meta": _meta, "ident": [0, 1, 7], "ident2": _same("ident", [0, 1, 7]), "block": BLOCKS, "block2": _prev("block", BLOCKS),
                  "count": [0, 1, 2, 3], "count2": [1, 1, 2, 3], "extra": [0, 0, 100, 511], "lookup()": _thin}


PAIRS = {
    "raid": {"samples": 600, "budget": 60, "domains": R | P},
    "siblings": {"samples": 300, "budget": 60, "domains": R | P},
    "tree": {"samples": 400, "domains": TREE | P | {"fh": _tree}},
    "trees": {"samples": 400, "domains": TREE | P | {"fh": _tree}},
    "paths": {"samples": 400, "domains": TREE | P | {"fh": _path, "key2": _small, "key3": _small}},
    "thin": {"samples": 500, "cut": [TREES], "opaque": [TREES + ".lookup"], "domains": THIN},
    "devices": {"samples": 500, "cut": [TREES], "opaque": [TREES + ".lookup"], "domains": THIN},
    "pool": {"samples": 100, "domains": P | BIG},
    "lvm": {"samples": 300, "opaque": ["dissect.volume.lvm.physical.parse_metadata"], "domains": LVM | P | {"sector2": _prev("sector", [0, 1, 7]), "count2": [0, 1, 2]}},
    "md": {"samples": 200, "domains": P | {"@ssize": _md_size}},
    "ddf": {"samples": 300, "domains": P | {"fh": _ddf_fh, "sector_size": [512, 512, 4096], "@ssize": lambda rng: 1 << 25}},
    "vinum": {"samples": 200, "domains": P},
    "snapshot": {"samples": 600, "heap": True, "memo": True, "hobj": [V + "BlockDescriptor"], "domains": VSS | P | {"fh": _vss_fh, "later": [0, 0, 1], "block2": _same("block", [0, 1, 2, 3])}},
    "stores": {"samples": 300, "heap": True, "memo": True, "hobj": [V + "BlockDescriptor"], "domains": VSS | P | {"fh": _vss_fh, "later": [1], "block2": _same("block", [0, 1, 2, 3])}},
    "stream": {"samples": 200, "opaque": [V + "Store.read_block"], "domains": {"read_block()": _block, "block": BLOCKS, "n": [1, 2, 3], "block2": _prev("block", BLOCKS), "n2": [1, 2, 3]}},
    "ranges": {"samples": 200, "domains": LISTS | P | {"fh": _fh_chain(5, _ranges)}},
    "bitmap": {"samples": 200, "domains": LISTS | P | {"fh": _fh_chain(6, _none)}},
    "catalog": {"samples": 200, "maxit": 400, "cut": [V + "Store"], "domains": LISTS | P | {"fh": _fh_chain(2, _catalog)}},
    "volume": {"samples": 200, "cut": [V + "Catalog"], "domains": P | BIG | {"fh": _volume}},
}

SAMPLES = {
    "cache of state": "from functools import lru_cache\nclass A:\n    def __init__(self):\n        self.k = 0\n    def seek(self, k):\n        self.k = k\n"
                      "    @lru_cache\n    def get(self, i):\n        return self.k + i\n",
    "cache of position": "from functools import cache\nclass A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n        self.get = cache(self.get)\n"
                         "    def get(self, i):\n        return self.fh.read(i)\n",
    "module": "C = {}\ndef f(fh, b):\n    if b not in C:\n        C[b] = fh.read(b)\n    return C[b]\n",
    "global": "L = None\ndef f(fh):\n    global L\n    L = fh.read(1)\n",
    "class": "class A:\n    c = {}\n    def f(self, fh, b):\n        return self.c.setdefault(b, fh.read(b))\n",
    "class name": "class A:\n    last = None\n    def f(self, fh):\n        A.last = fh.read(1)\n",
    "default": "def f(fh, b, c={}):\n    c[b] = fh.read(b)\n    return c[b]\n",
    "suspended": "class A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n        self.parts = self._parts()\n    def _parts(self):\n        self.fh.seek(0)\n"
                 "        while True:\n            yield self.fh.read(1)\n",
}
QUIET = {
    "cache": "from functools import lru_cache\nclass A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n        self.get = lru_cache(64)(self.get)\n"
             "    def get(self, i):\n        self.fh.seek(i)\n        return self.fh.read(1)\n",
    "cache, helper": "from functools import lru_cache\nclass A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n        self.get = lru_cache(64)(self.get)\n"
                     "    def place(self, i):\n        self.fh.seek(i)\n    def get(self, i):\n        self.place(i)\n        return self.fh.read(1)\n",
    "instance": "class A:\n    c = None\n    def __init__(self):\n        self.c = {}\n    def f(self, fh, b):\n        self.c[b] = 1\n",
    "local": "C = {}\ndef f(b):\n    C = {}\n    C[b] = 1\n    return C\n",
    "used up": "class A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n        self.parts = list(self._parts())\n    def _parts(self):\n        self.fh.seek(0)\n"
               "        while True:\n            yield self.fh.read(1)\n",
    "positioned": "class A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n        self.parts = self._parts()\n    def _parts(self):\n"
                  "        for i in range(4):\n            self.fh.seek(i)\n            yield self.fh.read(1)\n",
}


def rules(repo, tier):
    from vfa import history
    return history.run(repo, SAMPLES, QUIET)
