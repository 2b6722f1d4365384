"""C20: LVM physical volumes."""
EXPLAIN = ("The value graphs of recognising and decoding an LVM physical volume, of its metadata text and of reading its sectors are compared "
           "with a specification of the on-disk layout; parsing the text is an uninterpreted function here and is the subject of C21.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.lvm.physical import LVM2Device, parse_metadata
from dissect.volume.exceptions import LVM2Error
from vfa import u, raw, cstr


def label(fh):
    for i in range(4):
        if raw(fh, i * 512, 8) == b"LABELONE":
            return i * 512
    raise LVM2Error()


def locations(fh, at, width):
    """The (offset, size) rows up to the all-zero one, and where the next list starts."""
    rows = []
    while raw(fh, at, width) != bytes(width):
        rows.append((u(fh, at, 8), u(fh, at + 8, 8)))
        at += width
    return rows, at + width


def code_device(fh: BinaryIO):
    d = LVM2Device(fh)
    return {"fh": d.fh, "at": d.label_offset, "id": d.id, "size": d.size, "data": [(x.offset, x.size) for x in d._data_area_descriptors],
            "meta": [(x.offset, x.size) for x in d._metadata_area_descriptors],
            "areas": [(h.start, h.size, [(x.offset, x.size) for x in rows]) for h, rows in d._metadata_areas]}


def ref_device(fh: BinaryIO):
    at = label(fh)
    pv = at + u(fh, at + 20, 4)
    name = raw(fh, pv, 32).decode()
    data, end = locations(fh, pv + 40, 16)
    if len(data) != 1:
        raise RuntimeError()
    meta, _ = locations(fh, end, 16)
    areas = []
    for offset, size in meta:
        rows, _ = locations(fh, offset + 40, 24)
        areas.append((u(fh, offset + 24, 8), u(fh, offset + 32, 8), rows))
    return {"fh": fh, "at": at, "id": name, "size": u(fh, pv + 32, 8), "data": data, "meta": meta, "areas": areas}


def code_text(fh: BinaryIO):
    return LVM2Device(fh).metadata


def ref_text(fh: BinaryIO):
    at = label(fh)
    pv = at + u(fh, at + 20, 4)
    name = raw(fh, pv, 32).decode()
    data, end = locations(fh, pv + 40, 16)
    if len(data) != 1:
        raise RuntimeError()
    meta, _ = locations(fh, end, 16)
    if len(meta) == 0:
        return None
    rows, _ = locations(fh, meta[0][0] + 40, 24)
    start, size = rows[0]
    return parse_metadata(raw(fh, u(fh, meta[0][0] + 24, 8) + start, size - 1).decode())


def code_sectors(fh: BinaryIO, sector: int, count: int):
    return LVM2Device(fh).read_sectors(sector, count)


def ref_sectors(fh: BinaryIO, sector: int, count: int):
    at = label(fh)
    pv = at + u(fh, at + 20, 4)
    name = raw(fh, pv, 32).decode()
    data, end = locations(fh, pv + 40, 16)
    if len(data) != 1:
        raise RuntimeError()
    offset, size = data[0]
    if size == 0:
        size = u(fh, pv + 32, 8)
    if (sector + count) * 512 > size:
        raise IndexError()
    return raw(fh, offset + sector * 512, count * 512)
'''


def _fh(rng, w):
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))

    def put(at, v, n=8):
        for i, x in enumerate(v.to_bytes(n, "little") if isinstance(v, int) else v):
            w.mem[(h.key, at + i)] = x

    for i in range(4):
        put(i * 512, b"\0" * 32)
    places = rng.sample(range(4), rng.choice((0, 1, 1, 1, 1, 1, 1, 2, 2, 3)))
    for i in places:
        put(i * 512, b"LABELONE")
        put(i * 512 + 8, rng.choice((0, i, i, 1, 3, rng.randrange(1 << 40))))
        put(i * 512 + 16, rng.randrange(1 << 32), 4)
        off = rng.choice((32, 32, 32, 32, 40, 64, 32, 0xFF, 200))
        put(i * 512 + 20, off, 4)
        put(i * 512 + 24, b"LVM2 001")
        pv = i * 512 + off
        put(pv, bytes(rng.choice(b"0123456789abcdXYZ") for _ in range(32)) if rng.random() < 0.95 else b"\xff" * 32)
        put(pv + 32, rng.randrange(1, 100) * 512 * 1024)
        at = pv + 40
        for n in (rng.choice((1,) * 12 + (0, 2)), rng.choice((0, 1, 1, 1, 2, 3))):
            for j in range(n):
                # distinct places so that the areas do not overlap
                put(at, (rng.randrange(1, 40) * 4 + i) * 512 + 8192)
                put(at + 8, rng.choice((0, 0, rng.randrange(1, 100) * 512)))
                at += 16
            put(at, b"\0" * 16)
            at += 16
    for k in range(4, 164):
        mda = k * 512 + 8192
        put(mda, rng.randrange(1 << 32), 4)
        put(mda + 4, b" LVM2 x[5A%r0N*>")
        put(mda + 20, 1, 4)
        start = rng.choice((1 << 20, 3 << 20, 10**7 + rng.randrange(99) * 512))
        put(mda + 24, start)
        put(mda + 32, rng.randrange(1, 2000) * 512)
        at = mda + 40
        for j in range(rng.choice((0,) + (1,) * 5 + (2,) * 4)):
            off = rng.randrange(1, 60) * 512
            put(at, off)
            put(at + 8, rng.randrange(1, 60))
            put(start + off, bytes(rng.choice(b"abc = \"1\n{}") for _ in range(64)))
            put(at + 16, rng.randrange(1, 1 << 32), 4)
            put(at + 20, rng.choice((0, 0, 1)), 4)
            at += 24
        put(at, b"\0" * 24)
    return h


DOMAINS = {"fh": _fh, "sector": [0, 1, 2, 7, 100], "count": [0, 1, 2, 5], "@ssize": lambda rng: 1 << 60}
PARSE = ["dissect.volume.lvm.physical.parse_metadata"]
PAIRS = {"device": {"samples": 300}, "text": {"samples": 300, "opaque": PARSE}, "sectors": {"samples": 200}}
