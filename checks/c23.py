"""C23: VSS catalogs, stores and lists."""
EXPLAIN = ("The value graphs of reading a volume header, a catalog, a store and its lists are compared with specifications of the on-disk layout. "
           "Objects below the one under test are uninterpreted, their construction arguments are compared.")

HARNESS = '''
from __future__ import annotations
import uuid
from typing import BinaryIO
from dissect.volume.exceptions import Error
from dissect.volume.vss import VSS, BlockList, Catalog, RangeList, Store, StoreBitmap, read_block, c_vss
from vfa import u, raw, newobj

ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")


def chain(fh, offset):
    """The contents of the blocks of a chain."""
    out = b""
    seen = []
    while True:
        if offset in seen:
            raise Error()
        seen.append(offset)
        if raw(fh, offset, 16) != ID:
            raise Error()
        out += raw(fh, offset + 128, 16384 - 128)
        offset = u(fh, offset + 40, 8)
        if offset == 0:
            return out


def code_volume(fh: BinaryIO):
    v = VSS(fh)
    return {"volume": v.volume_identifier, "store": v.store_volume_identifier, "catalog": v.catalog, "fh": v.fh}


def ref_volume(fh: BinaryIO):
    at = 0x1E00
    if raw(fh, at, 16) != ID:
        raise Error()
    if u(fh, at + 48, 8) == 0:
        raise Error()
    return {"volume": uuid.UUID(bytes_le=raw(fh, at + 64, 16)), "store": uuid.UUID(bytes_le=raw(fh, at + 80, 16)),
            "catalog": Catalog(newobj(VSS), u(fh, at + 48, 8)), "fh": fh}


def code_catalog(vss: VSS, fh: BinaryIO, offset: int):
    vss.fh = fh
    c = Catalog(vss, offset)
    return {"stores": c.stores, "times": [s.creation_time for s in c.stores], "index": [s.index for s in c.stores],
            "previous": [s.previous_store for s in c.stores], "next": [s.next_store for s in c.stores], "kinds": [e.entry_type for e in c.entries],
            "count": len(c.entries)}


def ref_catalog(vss: VSS, fh: BinaryIO, offset: int):
    vss.fh = fh
    data = chain(fh, offset)
    kinds = []
    names = []
    groups = {}
    for i in range(len(data) // 128):
        at = i * 128
        kind = int.from_bytes(data[at : at + 8], "little")
        if kind == 0:
            break
        if kind > 3:
            raise Error()
        kinds.append(kind)
        if kind > 1:
            name = data[at + 16 : at + 32]
            entry = c_vss.catalog_entry_2(data[at : at + 128]) if kind == 2 else c_vss.catalog_entry_3(data[at : at + 128])
            if name not in names:
                names.append(name)
                groups[name] = [entry]
            else:
                groups[name] = [*groups[name], entry]
    stores = [Store(newobj(Catalog), groups[n]) for n in names]
    stores = sorted(stores, key=lambda s: s.creation_time)
    n = len(stores)
    return {"stores": stores, "times": [s.creation_time for s in stores], "index": list(range(n)),
            "previous": [stores[i - 1] if i else None for i in range(n)],
            "next": [stores[i + 1] if i + 1 < n else stores[i].next_store for i in range(n)], "kinds": kinds, "count": len(kinds)}


def code_store(fh: BinaryIO, cat: Catalog, n: int, a: int, b: int):
    cat.fh = fh
    d2 = c_vss.catalog_entry_2(raw(fh, a, 128))
    d3 = c_vss.catalog_entry_3(raw(fh, b, 128))
    s = Store(cat, [d2, d3] if n == 2 else [d2] if n == 1 else [d2, d3, d3])
    return {"size": s.volume_size, "also": s.size, "time": s.creation_time, "copy": s.copy_identifier, "set": s.copy_set_identifier,
            "type": s.information.type, "provider": s.information.provider, "attributes": s.information.attributes,
            "machine": s.information.operating_machine, "service": s.information.service_machine, "links": (s.previous_store, s.next_store)}


def ref_store(fh: BinaryIO, cat: Catalog, n: int, a: int, b: int):
    if n != 2:
        raise NotImplementedError()
    at = u(fh, b + 32, 8)
    if raw(fh, at, 16) != ID:
        raise Error()
    width = u(fh, at + 192, 2) // 2
    return {"size": u(fh, a + 8, 8), "also": u(fh, a + 8, 8), "time": u(fh, a + 48, 8),
            "copy": uuid.UUID(bytes_le=raw(fh, at + 144, 16)), "set": uuid.UUID(bytes_le=raw(fh, at + 160, 16)),
            "type": u(fh, at + 176, 4), "provider": u(fh, at + 180, 4), "attributes": u(fh, at + 184, 4),
            "machine": raw(fh, at + 194, width * 2).decode("utf-16-le"),
            "service": raw(fh, at + 196 + width * 2, u(fh, at + 194 + width * 2, 2) // 2 * 2).decode("utf-16-le"), "links": (None, None)}


def code_lists(fh: BinaryIO, cat: Catalog, a: int, b: int):
    cat.fh = fh
    s = Store(cat, [c_vss.catalog_entry_2(raw(fh, a, 128)), c_vss.catalog_entry_3(raw(fh, b, 128))])
    return (s.block_list, s.range_list, s.bitmap, s.previous_bitmap)


def ref_lists(fh: BinaryIO, cat: Catalog, a: int, b: int):
    cat.fh = fh
    s = Store(cat, [c_vss.catalog_entry_2(raw(fh, a, 128)), c_vss.catalog_entry_3(raw(fh, b, 128))])
    before = u(fh, b + 72, 8)
    return (BlockList(s, u(fh, b + 8, 8)), RangeList(s, u(fh, b + 40, 8)), StoreBitmap(s, u(fh, b + 48, 8)),
            StoreBitmap(s, before) if before else None)


def code_blocks(store: Store, fh: BinaryIO, offset: int):
    store.fh = fh
    m = BlockList(store, offset).map
    return (sorted(m.map), sorted(m.reverse))


def ref_blocks(store: Store, fh: BinaryIO, offset: int):
    data = chain(fh, offset)
    if u(fh, offset + 20, 4) != 3:
        raise Error()
    blocks = []
    targets = []
    for i in range(len(data) // 32):
        e = data[i * 32 : i * 32 + 32]
        if e == bytes(32):
            break
        flags = int.from_bytes(e[24:28], "little")
        block = int.from_bytes(e[:8], "little") // 16384
        target = int.from_bytes(e[8:16], "little") // 16384
        if block not in blocks:
            blocks.append(block)
        if flags & 1:
            targets.append(target)
    return (sorted(blocks), sorted(targets))


def code_ranges(store: Store, fh: BinaryIO, offset: int):
    store.fh = fh
    return [(e.store_offset, e.relative_offset, e.size) for e in RangeList(store, offset).entries]


def ref_ranges(store: Store, fh: BinaryIO, offset: int):
    data = chain(fh, offset)
    if u(fh, offset + 20, 4) != 5:
        raise Error()
    out = []
    for b in range(len(data) // 16256):
        for i in range(677):
            e = data[b * 16256 + i * 24 : b * 16256 + i * 24 + 24]
            if e == bytes(24):
                break
            out.append((int.from_bytes(e[:8], "little"), int.from_bytes(e[8:16], "little"), int.from_bytes(e[16:], "little")))
    return out


def code_bitmap(store: Store, fh: BinaryIO, offset: int, block: int, inside: int):
    store.fh = fh
    b = StoreBitmap(store, offset)
    return {"set": b.is_set(block), "use": b.in_use(block), "item": b[block], "offset": b.has_offset(block * 16384 + inside)}


def ref_bitmap(store: Store, fh: BinaryIO, offset: int, block: int, inside: int):
    data = chain(fh, offset)
    if u(fh, offset + 20, 4) != 6:
        raise Error()
    bit = data[block // 8] >> block % 8 & 1
    return {"set": bit == 1, "use": bit == 0, "item": bit == 0, "offset": bit == 0}
'''

ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
STOREINFO = "dissect.volume.vss."


def _put(w, at, v, n=8, key=("sym", "fh")):
    for i, x in enumerate(v.to_bytes(n, "little") if isinstance(v, int) else v):
        w.mem[(key, at + i)] = x


def _chain(w, rng, places, fill, record=None, cycle=0.05, bad=0.08):
    """A chain of blocks, each filled by a function of its first content byte."""
    n = rng.choice((1, 1, 1, 2, 2, 3))
    for i, at in enumerate(places[:n]):
        _put(w, at, ID if rng.random() >= bad / n else bytes(rng.randrange(256) for _ in range(16)))
        _put(w, at + 20, record if rng.random() >= bad else rng.randrange(7), 4)
        nxt = places[i + 1] if i + 1 < n else 0 if rng.random() >= cycle else rng.choice(places[:n])
        _put(w, at + 40, nxt)
        fill(at + 128, i, n)


PLACES = (0x8000, 0x20000, 0x14000)


def _fh_chain(record, fill):
    def make(rng, w):
        from vfa.evalr import HVal
        _chain(w, rng, PLACES, lambda at, i, n: fill(rng, w, at, i, n), record)
        return HVal(("sym", "fh"))
    return make


def _catalog(rng, w, at, i, n):
    """Mostly few entries, so that the end comes early; a chain goes on only after a full block."""
    ids = [bytes([x] * 16) for x in (1, 2, 3)]
    kinds = rng.choice(([], [2, 3], [1, 2, 3], [2, 3, 2, 3], [2, 2, 3, 3], [2, 1, 3], [2, 3, 4], [2], [2, 3, 2, 3, 2, 3], [1, 1, 2, 3, 9]))
    seen = {2: 0, 3: 0}
    if i < n - 1 and rng.random() < 0.1:
        kinds = [1] * (127 - len(kinds)) + kinds
    for k in kinds:
        _put(w, at, k)
        if k in seen:
            _put(w, at + 16, ids[seen[k] % 3] if rng.random() < 0.97 else rng.choice(ids))
            seen[k] += 1
        at += 128
    if at % 16384:
        _put(w, at, 0)


def _blocks(rng, w, at, i, n):
    from_ = rng.randrange(1000)
    for j in range(508 if i < n - 1 and rng.random() < 0.01 else rng.choice((0, 1, 2, 3, 5))):
        _put(w, at, (from_ + j if rng.random() < 0.8 else from_) * 16384)
        # targets are unique, so that no two forwarders meet
        _put(w, at + 8, (100000 + i * 10000 + from_ + j) * 16384)
        _put(w, at + 16, rng.randrange(1, 9999) * 16384)
        _put(w, at + 24, rng.choice((0, 0, 1)), 4)
        _put(w, at + 28, rng.getrandbits(32), 4)
        at += 32
    if at % 16384:
        _put(w, at, bytes(32))


def _ranges(rng, w, at, i, n):
    for j in range(rng.choice((0, 1, 2, 3, 5))):
        for k in range(3):
            _put(w, at + k * 8, rng.choice((0, rng.randrange(1, 9999) * 16384)))
        if rng.random() < 0.7:
            _put(w, at + 16, rng.randrange(1, 9999) * 512)
        at += 24
    _put(w, at, bytes(24))


def _none(rng, w, at, i, n):
    pass


def _volume(rng, w):
    from vfa.evalr import HVal
    _put(w, 0x1E00, ID if rng.random() < 0.85 else rng.choice((bytes(16), ID[:15] + b"\0", b"\0" + ID[1:])))
    _put(w, 0x1E00 + 48, rng.choice((0, 0x4000, 1 << 30, 0x7F4000)))
    return HVal(("sym", "fh"))


def _store(rng, w):
    from vfa.evalr import HVal
    at = rng.choice((0x8000, 0x100000))
    _put(w, 0x1000 + 32, at)
    _put(w, at, ID if rng.random() < 0.9 else ID[::-1])
    n = rng.choice((0, 2, 10, 11))
    _put(w, at + 192, n, 2)
    for i in range(n // 2):
        _put(w, at + 194 + 2 * i, ord(rng.choice("abcXYZ")), 2)
    m = rng.choice((0, 6, 7))
    _put(w, at + 194 + n // 2 * 2, m, 2)
    for i in range(m // 2):
        _put(w, at + 196 + n // 2 * 2 + 2 * i, ord(rng.choice("abcXYZ")), 2)
    for o in (8, 40, 48):
        _put(w, 0x1000 + o, rng.choice((0x4000, 0x18000, 1 << 33)))
    _put(w, 0x1000 + 72, rng.choice((0, 0, 0x4000, 1 << 33)))
    return HVal(("sym", "fh"))


M = "dissect.volume.vss."
DOMAINS = {"offset": [0x8000], "n": [2, 2, 2, 2, 1, 3], "a": [0], "b": [0x1000], "block": list(range(0, 40)) + [100, 16256 * 8 - 1, 16256 * 8, 16256 * 9],
           "inside": [0, 1, 16383], "@ssize": lambda rng: 1 << 60, ".creation_time": list(range(1, 99)), ".next_store": [None]}
PAIRS = {
    "volume": {"samples": 300, "cut": [M + "Catalog"], "domains": DOMAINS | {"fh": _volume}},
    "catalog": {"samples": 600, "maxit": 400, "cut": [M + "Store"], "domains": DOMAINS | {"fh": _fh_chain(2, _catalog)}},
    "store": {"samples": 300, "domains": DOMAINS | {"fh": _store}},
    "lists": {"samples": 800, "cut": [M + "BlockList", M + "RangeList", M + "StoreBitmap"], "domains": DOMAINS | {"fh": _store}},
    "blocks": {"samples": 600, "maxit": 1600, "heap": True, "hobj": [M + "BlockDescriptor"], "domains": DOMAINS | {"fh": _fh_chain(3, _blocks)}},
    "ranges": {"samples": 100, "maxit": 1500, "domains": DOMAINS | {"fh": _fh_chain(5, _ranges)}},
    "bitmap": {"samples": 600, "domains": DOMAINS | {"fh": _fh_chain(6, _none)}},
}
