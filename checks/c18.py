"""C18: thin devices."""
from checks.common import PULL

EXPLAIN = ("The value graphs of reading the pool superblock, opening a thin device and reading from it are compared with a specification of "
           "the superblock layout and of the block mapping; the tree lookup is an uninterpreted function here and is the subject of C19.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.dm.thin import Metadata, ThinDevice, ThinPool
from dissect.volume.exceptions import DMError
from vfa import u, raw, typed


def num(b):
    return int.from_bytes(b, "little")


def code_metadata(fh: BinaryIO):
    m = Metadata(fh)
    return {"data": m.data_block_size, "meta": m.metadata_block_size, "fh": m.fh,
            "mapping": (m.data_mapping.fh, m.data_mapping.root, m.data_mapping.block_size),
            "details": (m.device_details.fh, m.device_details.root, m.device_details.block_size)}


def ref_metadata(fh: BinaryIO):
    if u(fh, 32, 8) != 27022010:
        raise DMError()
    size = u(fh, 340, 4)
    return {"data": u(fh, 336, 4), "meta": size, "fh": fh, "mapping": (fh, u(fh, 320, 8), size), "details": (fh, u(fh, 328, 8), size)}


def code_pool(meta: BinaryIO, data: BinaryIO):
    p = ThinPool(meta, data)
    return {"data": p.data_fh, "meta": p.metadata_fh, "of": p.metadata}


def ref_pool(meta: BinaryIO, data: BinaryIO):
    return {"data": data, "meta": meta, "of": Metadata(meta)}


def code_open(pool: ThinPool, ident: int, size: int | None):
    d = pool.open(ident, size)
    return {"size": d.size, "details": (d.details.mapped_blocks, d.details.transaction_id, d.details.creation_time,
            d.details.snapshotted_time)}


def ref_open(pool: ThinPool, ident: int, size: int | None):
    found = pool.metadata.device_details.lookup(ident)
    if not found:
        raise DMError()
    return {"size": size, "details": (num(found[0:8]), num(found[8:16]), num(found[16:20]), num(found[20:24]))}


def code_read(pool: ThinPool, ident: int, size: int | None, block: int, within: int, length: int):
    d = ThinDevice(pool, ident, size)
    return pull(d, block * pool.metadata.data_block_size * 512 + within, length)


def ref_read(pool: ThinPool, ident: int, size: int | None, block: int, within: int, length: int):
    if not pool.metadata.device_details.lookup(ident):
        raise DMError()
    n = pool.metadata.data_block_size * 512
    out = []
    at = block * n + within
    while length > 0:
        inside = at % n
        want = min(length, n - inside)
        v = pool.metadata.data_mapping.lookup([ident, at // n])
        if v is None:
            out.append(bytes(want))
        else:
            out.append(raw(pool.data_fh, (num(v) >> 24) * n + inside, want))
        at += want
        length -= want
    return b"".join(out)


def code_plain(pool: ThinPool, ident: int, block: int):
    return ThinDevice(pool, ident).size


def ref_plain(pool: ThinPool, ident: int, block: int):
    if not pool.metadata.device_details.lookup(ident):
        raise DMError()
    return None
''' + PULL


def _lookup(rng, w):
    """Device details for a single key, a packed block number and time for a key path; absent now and then."""
    if rng.random() < 0.3:
        return None
    if isinstance(w.cur_key[2][1], tuple):
        return (rng.choice((0, 1, 2, 3, 9, 1 << 20, (1 << 40) - 1)) << 24 | rng.choice((0, 1, rng.randrange(1 << 24)))).to_bytes(8, "little")
    return bytes(rng.randrange(256) for _ in range(24))


LOOKUP = ["dissect.volume.dm.btree.BTree.lookup"]
DOMAINS = {"ident": [0, 1, 7, 4096], "size": [None, 0, 512, 10**6], "block": [0, 1, 2, 5, 1000], "within": [0, 0, 1, 511, 512, 1000], "length": [0, 1, 100, 512, 1024, 1536, 3000, 4096],
           "lookup()": _lookup,
           ".data_block_size": [1, 2, 4], "@ssize": lambda rng: 1 << 60}
PAIRS = {"metadata": {"samples": 200}, "pool": {"samples": 100, "cut": ["dissect.volume.dm.thin.Metadata"]},
         "open": {"samples": 100, "opaque": LOOKUP}, "read": {"samples": 400, "opaque": LOOKUP}, "plain": {"samples": 60, "opaque": LOOKUP}}
